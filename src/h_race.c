/* The whole proxy program (proxy.c, listener, connection threads, TLS sockets and caches, translation, CoAP client and pools)
   with its real threads, real GnuTLS and real loopback sockets under ThreadSanitizer. Concurrent HTTPS clients check that each
   response is the one that the origin gave to their own request. P28. */
#include "vc.h"
#include "refcoap.h"
#include "pki.h"
#include <pthread.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <sched.h>
#include <poll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <gnutls/gnutls.h>
#define MAXT 6
int proxy_main(int argc, char **argv);
int noprintf(const char *f, ...) { (void)f; return 0; }
int novprintf(const char *f, va_list a) { char b[2000]; vsnprintf(b, sizeof b, f, a); return 0; }
int __wrap_gnutls_dh_params_generate2(gnutls_dh_params_t p, unsigned bits) { (void)bits; return gnutls_dh_params_import_raw(p, &gnutls_ffdhe_2048_group_prime, &gnutls_ffdhe_2048_group_generator); }
/* widen the window between accepting a connection and handing it to its thread, and between decryption and processing */
static __thread uint64_t jit;
static void jitter(void) { jit = vc_mix(jit + 1, (uintptr_t)&jit); if (jit % 8 == 0) sched_yield(); else if (jit % 64 == 1) usleep(jit >> 8 & 255); }
ssize_t __real_gnutls_record_recv(gnutls_session_t s, void *d, size_t n);
ssize_t __wrap_gnutls_record_recv(gnutls_session_t s, void *d, size_t n) { jitter(); return __real_gnutls_record_recv(s, d, n); }
int plain_client_create(void *c, const char *host, const char *port);
int coap_client_create(void *c, const char *host, const char *port, const char *key, const char *cert, const char *trust, const char *crl, const char *cn)
{ (void)key; (void)cert; (void)trust; (void)crl; (void)cn; jitter(); return plain_client_create(c, host, port); }

/* ---- what the origin answers is a function of the method, the path and the body of the request */
typedef struct { unsigned cls, det; size_t n; uint8_t d[1024]; } ans_t;
static void answer(ans_t *a, unsigned method, const char *path, const uint8_t *body, size_t bn)
{
    static const unsigned codes[6][2] = { {2, 5}, {2, 4}, {2, 1}, {4, 4}, {5, 0}, {2, 2} };
    uint64_t h = vc_hash(body, bn, vc_hash(path, strlen(path), method)); rng_t r = { h };
    int k = rng_below(&r, 12); if (k >= 6) k = 0;
    a->cls = codes[k][0]; a->det = codes[k][1];
    a->n = 1 + rng_below(&r, rng_chance(&r, 1, 4) ? 900 : 60);
    for (size_t i = 0; i < a->n; i++) a->d[i] = 'a' + rng_below(&r, 26);
}
static int osd, oport; static long executed; static pthread_mutex_t ol = PTHREAD_MUTEX_INITIALIZER;
static void *origin(void *x)
{
    static rmsg_t q, m; uint8_t b[2000], out[2500]; unsigned mid = 100; ans_t a; (void)x;
    while (1)
    {
        struct sockaddr_in p; socklen_t pl = sizeof p; char path[300]; size_t k = 0;
        ssize_t n = recvfrom(osd, b, sizeof b, 0, (void *)&p, &pl);
        if (n < 0) { if (errno == EINTR || errno == EAGAIN || errno == ECONNREFUSED) continue; break; }
        if (r_decode(&q, b, n) != REF_OK || q.cls != 0 || q.det == 0) continue;
        for (unsigned i = 0; i < q.nops; i++) if (q.ops[i].num == 11 && k + q.ops[i].len + 2 < sizeof path) { path[k++] = '/'; memcpy(path + k, q.ops[i].val, q.ops[i].len); k += q.ops[i].len; }
        path[k] = 0;
        answer(&a, q.det, path, q.payload, q.plen);
        pthread_mutex_lock(&ol); executed++; pthread_mutex_unlock(&ol);
        int sep = q.type == 0 && vc_hash(b, n, 7) % 8 == 0;
        r_init(&m); m.ver = 1; m.type = 2; m.mid = q.mid; m.tkl = 0;
        if (sep) { size_t l = r_encode(&m, out); sendto(osd, out, l, 0, (void *)&p, pl); m.type = 1; m.mid = ++mid & 0xffff; }
        if (q.type == 1) { m.type = 1; m.mid = ++mid & 0xffff; }
        m.cls = a.cls; m.det = a.det; m.tkl = q.tkl; memcpy(m.tok, q.tok, 8); m.payload = r_store(&m, a.d, a.n); m.plen = a.n;
        size_t l = r_encode(&m, out); sendto(osd, out, l, 0, (void *)&p, pl);
    }
    return NULL;
}

/* ---- the proxy */
static char conf[64]; static int pport, prc; static pthread_mutex_t pl_ = PTHREAD_MUTEX_INITIALIZER;
static void *proxy(void *x)
{
    char *av[] = { "proxy", "-c", conf, NULL }; (void)x;
    int r = proxy_main(3, av);
    pthread_mutex_lock(&pl_); prc = 1 + r; pthread_mutex_unlock(&pl_);
    return NULL;
}
static int tcp(int port)
{
    struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = htons(port), .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; int s = socket(AF_INET, SOCK_STREAM, 0), one = 1;
    struct timeval tv = { 120, 0 };
    if (s < 0) return -1;
    setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    if (connect(s, (void *)&a, sizeof a) < 0) { close(s); return -1; }
    return s;
}
static void start(void)
{
    pthread_t t; struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t al = sizeof a;
    osd = socket(AF_INET, SOCK_DGRAM, 0); if (bind(osd, (void *)&a, sizeof a) || getsockname(osd, (void *)&a, &al)) { printf("cannot bind\n"); exit(2); }
    oport = ntohs(a.sin_port); pthread_create(&t, NULL, origin, NULL); pthread_detach(t);
    for (int k = 0; k < 20; k++)
    {
        int s = socket(AF_INET, SOCK_STREAM, 0); FILE *f; a.sin_port = 0; al = sizeof a;
        if (bind(s, (void *)&a, sizeof a) || getsockname(s, (void *)&a, &al)) { close(s); continue; }
        pport = ntohs(a.sin_port); close(s);
        snprintf(conf, sizeof conf, "proxy%d.conf", k); f = fopen(conf, "w");
        fprintf(f, "log_level = debug\nport = %d\n[http_server]\nkey_file = \"ok.key\"\ncert_file = \"ok.crt\"\ntrust_file = \"ca.crt\"\n[coap_client]\nkey_file = \"ok.key\"\ncert_file = \"ok.crt\"\ntrust_file = \"ca.crt\"\n", pport); fclose(f);
        prc = 0; pthread_create(&t, NULL, proxy, NULL); pthread_detach(t);
        for (int i = 0; i < 400; i++)
        {
            pthread_mutex_lock(&pl_); int ended = prc; pthread_mutex_unlock(&pl_);
            if (ended) break;
            if ((s = tcp(pport)) >= 0) { close(s); return; }
            usleep(50000);
        }
    }
    printf("cannot start the proxy\n"); fflush(stdout); _exit(2);
}

/* ---- the HTTPS clients */
static gnutls_certificate_credentials_t cred;
typedef struct { rng_t r; int id; long req, resp, resumed, unserved, open; char key[40], why[400]; uint64_t h; } cl_t;
static cl_t T[MAXT]; static pthread_barrier_t bar;
#define BAD(c, k, ...) do { if (!(c)->key[0]) { snprintf((c)->key, sizeof (c)->key, "%s", k); snprintf((c)->why, sizeof (c)->why, __VA_ARGS__); } } while (0)
static int status_of(const ans_t *a) { if (a->cls == 2) return 200; return a->cls * 100 + a->det; }
static ssize_t rd(gnutls_session_t s, void *b, size_t n) { ssize_t k; do k = __real_gnutls_record_recv(s, b, n); while (k == GNUTLS_E_INTERRUPTED); return k; }
static int exchange(cl_t *c, gnutls_session_t s, int n)
{
    static const char *const M[] = { NULL, "GET", "POST", "PUT", "DELETE" };
    char path[64], w[3000], in[5000]; uint8_t body[1024]; size_t bn = 0, k, got = 0, hn; ans_t a; char *e = NULL;
    unsigned m = 1 + rng_below(&c->r, 4);
    snprintf(path, sizeof path, "/%c%d/%llx", 'a' + c->id, n, (unsigned long long)rng_u64(&c->r));
    if (m == 2 || m == 3) { bn = 1 + rng_below(&c->r, 800); for (size_t i = 0; i < bn; i++) body[i] = 'A' + rng_below(&c->r, 26); }
    answer(&a, m, path, body, bn);
    k = snprintf(w, sizeof w, "%s coaps://127.0.0.1:%d%s HTTP/1.1\r\n", M[m], oport, path);
    if (bn) k += snprintf(w + k, sizeof w - k, "Content-Length: %zu\r\n", bn);
    k += snprintf(w + k, sizeof w - k, "\r\n"); memcpy(w + k, body, bn); k += bn;
    for (size_t o = 0; o < k; )
    {
        size_t z = rng_chance(&c->r, 1, 2) ? k - o : 1 + rng_below(&c->r, k - o); ssize_t x;
        do x = gnutls_record_send(s, w + o, z); while (x == GNUTLS_E_INTERRUPTED || x == GNUTLS_E_AGAIN);
        if (x <= 0) { BAD(c, "closed-early", "client %d: the proxy closed the connection while request %d was being sent: %s", c->id, n, gnutls_strerror(x)); return -1; }
        o += x; if (o < k) sched_yield();
    }
    c->req++;
    while (!e)
    {
        ssize_t x = got < sizeof in - 1 ? rd(s, in + got, sizeof in - 1 - got) : -1;
        if (x <= 0) { BAD(c, "lost-response", "client %d: no response to %s %s: %s after %zu bytes", c->id, M[m], path, x ? gnutls_strerror(x) : "closed", got); return -1; }
        got += x; in[got] = 0; e = strstr(in, "\r\n\r\n");
    }
    hn = e + 4 - in; char *cl = strcasestr(in, "Content-Length:"); size_t want = cl && cl < e ? strtoul(cl + 15, NULL, 10) : 0;
    if (want > sizeof in - 1 - hn) { BAD(c, "wrong-length", "client %d: response to %s %s announces %zu bytes", c->id, M[m], path, want); return -1; }
    while (got < hn + want)
    {
        ssize_t x = rd(s, in + got, sizeof in - 1 - got);
        if (x <= 0) { BAD(c, "lost-response", "client %d: response to %s %s is cut after %zu of %zu bytes", c->id, M[m], path, got - hn, want); return -1; }
        got += x;
    }
    in[got] = 0;
    int st = 0; sscanf(in, "HTTP/1.1 %d", &st);
    if (st != status_of(&a)) { BAD(c, "wrong-status", "client %d: %s %s got status %d, the origin answered %u.%02u", c->id, M[m], path, st, a.cls, a.det); return -1; }
    if (got - hn != a.n || memcmp(in + hn, a.d, a.n)) { BAD(c, "wrong-body", "client %d: %s %s got a body of %zu bytes that is not what the origin answered (%zu bytes)", c->id, M[m], path, got - hn, a.n); return -1; }
    c->resp++; c->h = vc_hash(in, got, c->h);
    return 0;
}
static void *client(void *x)
{
    cl_t *c = x; gnutls_datum_t old = { NULL, 0 }; int conns = 1 + rng_below(&c->r, 3), n = 0; jit = rng_u64(&c->r);
    pthread_barrier_wait(&bar);
    for (int k = 0; k < conns && !c->key[0]; k++)
    {
        gnutls_session_t s; int sd = tcp(pport), r, m = 1 + rng_below(&c->r, 4);
        if (sd < 0) { c->unserved++; continue; }
        gnutls_init(&s, GNUTLS_CLIENT); gnutls_priority_set_direct(s, rng_chance(&c->r, 1, 2) ? "NORMAL:-VERS-TLS1.3" : "NORMAL", NULL);
        gnutls_credentials_set(s, GNUTLS_CRD_CERTIFICATE, cred); gnutls_transport_set_int(s, sd);
        if (old.data) gnutls_session_set_data(s, old.data, old.size);
        do r = gnutls_handshake(s); while (r == GNUTLS_E_INTERRUPTED);
        if (r < 0) c->unserved++;
        else
        {
            c->open++; c->resumed += gnutls_session_is_resumed(s) != 0;
            for (int i = 0; i < m; i++) if (exchange(c, s, n++) < 0) break;
            gnutls_free(old.data); old.data = NULL;
            if (rng_chance(&c->r, 2, 3)) { if (gnutls_session_get_data2(s, &old) < 0) old.data = NULL; }
            if (rng_chance(&c->r, 2, 3)) gnutls_bye(s, GNUTLS_SHUT_WR);
        }
        gnutls_deinit(s); close(sd);
    }
    gnutls_free(old.data);
    return NULL;
}
static void m_race(void)
{
    int n = 2 + rng_below(&vc_rng, MAXT - 1); pthread_t t[MAXT]; uint64_t h = 0;
    static long seen; long ex;
    memset(T, 0, sizeof T); pthread_barrier_init(&bar, NULL, n);
    for (int i = 0; i < n; i++) { T[i].r.s = rng_u64(&vc_rng); T[i].id = i; pthread_create(&t[i], NULL, client, &T[i]); }
    for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
    pthread_barrier_destroy(&bar);
    for (int i = 0; i < n; i++)
    {
        if (T[i].key[0]) vc_viol(T[i].key, "%s", T[i].why);
        vc_count("connections", T[i].open); vc_count("requests", T[i].req); vc_count("responses", T[i].resp); vc_count("resumed", T[i].resumed); vc_count("unserved", T[i].unserved);
        h = vc_mix(h, T[i].h);
    }
    pthread_mutex_lock(&ol); ex = executed; pthread_mutex_unlock(&ol);
    vc_count("origin_requests", ex - seen); seen = ex;
    vc_distinct(h);
    if (vc_want_sample()) vc_sample("%d HTTPS clients at once: client 0 had %ld connections, %ld responses", n, T[0].open, T[0].resp);
}
int main(int c, char **v)
{
    static const pki_spec_t s[] = { { "ca", NULL, 1, -86400, 86400 * 36500L, "ca", {0} }, { "ok", "ca", 0, -86400, 86400 * 36400L, "server.example.com", {0} } };
    static const vc_mode_t m[] = { {"race", m_race, "up to 6 HTTPS clients at once against the threaded proxy; distinct sets of responses"}, {0, 0, 0} };
    signal(SIGPIPE, SIG_IGN);
    gnutls_global_init(); pki_make(s, 2);
    gnutls_certificate_allocate_credentials(&cred);
    if (gnutls_certificate_set_x509_key_file(cred, "ok.crt", "ok.key", GNUTLS_X509_FMT_PEM) < 0) return 2;
    vc_case_wall_s = 360;
    start();
    int r = vc_main(c, v, m);
    fflush(stdout);
    _exit(r);
}
