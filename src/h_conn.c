/* The proxy's real listener, connections, TLS sockets and translation, in virtual time: HTTP clients whose bytes arrive in
   pieces over a simulated TLS library, CoAP origins (the real server library) behind a network that loses, delays and
   duplicates. Monitors: every HTTP client parses what it gets and compares it with what the origin answered to that very
   request; origins record executions; heap, pools, descriptors and sessions are balanced at the end. P28, P29. */
#include <errno.h>
#include <netdb.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include "vc.h"
#include "sim.h"
#include "refcoap.h"
#include "vmem.h"
#include "vheap.h"
#include "hconn.h"
#include "coap_mem.h"
#include "param.h"
#include "listener.h"
#include "connection.h"

#define R(n) ((int)rng_below(&vc_rng, (n)))
#define PCT(n) (rng_below(&vc_rng, 100) < (unsigned)(n))
#define V(key, ...) vc_viol(key, __VA_ARGS__)
#define FAULTS (faults + vh_failed)
#define MAXC 8
#define MAXR 8
enum { H_OK, H_FAIL, H_SILENT };
typedef struct { plan_t p; int status, any_error, maybe_closed; char *wire; size_t wn; } req_t;
typedef struct
{
    int id, bad, hs, hello, pipe, style, nr, posted, got, accepted, finished, closing, closed, gone, slow, cut, wrong, has_session;
    req_t r[MAXR]; char *extra; size_t en;
    uint8_t *out; size_t on, ocap, oi; uint64_t last;
    saddr_t a, peer; uint64_t since; int fd; uint8_t pend[16400]; size_t pn, po;
} conn_t;
typedef struct { conn_t *c; int fd; } sess_t;
static conn_t C[MAXC]; static int nC, lax, sessions, faults, fault_pct; static uint64_t th;
static struct { int loss, dup, delay; } net;
static saddr_t la; static param_t param; static plan_t laxplan;
int go;
static long n_req, n_resp, n_err, n_pieces, n_sw, n_lost, n_dup, n_early;
static uint8_t want[OMAX];

void plan_fill(void *p, size_t n, uint64_t salt) { rng_t g = { vc_mix(salt, 99) }; rng_bytes(&g, p, n); }
plan_t *plan_find(const void *tag, size_t len)
{
    const char *t = tag; int c = t[0] - 'A', r = t[1] - 'A';
    if (len == 2 && c >= 0 && c < nC && r >= 0 && r < C[c].nr && !C[c].bad)
        return &C[c].r[r].p;
    if (lax)
        return &laxplan;
    V("corrupt-request", "a request reached the origin with an unknown tag %c%c", t[0], t[1]);
    return NULL;
}

/* ---- the HTTP clients */
static void on_out(conn_t *c);
static void post(conn_t *c, const char *d, size_t n)
{
    size_t i = 0;
    while (i < n)
    {
        size_t k;
        switch (c->style)
        {
        case 0: k = n - i; break;
        case 1: k = 1 + R(20); break;
        case 2: k = 1 + R(3000); break;
        case 3: k = i < 200 ? 1 : n - i; break;
        default: k = PCT(50) ? 1 + R(64) : 1 + R(9000); break;
        }
        if (k > n - i) k = n - i;
        if (k > 16384) k = 16384;
        uint64_t gap = 1 + (PCT(80) ? R(3) * MSEC / 3 : PCT(90) ? R(50) * MSEC : (uint64_t)R(1500) * MSEC);
        if (n > 4000 && gap > 20 * MSEC) gap = 20 * MSEC;
        if (c->slow && PCT(10)) gap = (uint64_t)R(200) * SEC;
        if (c->last < sim_now) c->last = sim_now;
        c->last += gap;
        sim_post(&c->peer, &c->a, d + i, k, c->last);
        n_pieces++;
        i += k;
    }
}
static void post_close(conn_t *c)
{
    if (c->closing) return;
    c->closing = 1;
    if (c->last < sim_now) c->last = sim_now;
    c->last += 1 + (PCT(70) ? 0 : (uint64_t)R(3000) * MSEC);
    sim_post(&c->peer, &c->a, "", 0, c->last);
}
static void post_next(void *p)
{
    conn_t *c = p;
    if (c->finished || c->gone) return;
    if (c->posted < c->nr)
    {
        if (c->pipe)
        {
            /* several requests in one go, pieces across their borders */
            size_t n = 0, k = 0; int upto = c->posted + 1 + R(c->nr - c->posted);
            for (int i = c->posted; i < upto; i++) n += c->r[i].wn;
            char *b = malloc(n + 1);
            for (int i = c->posted; i < upto; i++) { memcpy(b + k, c->r[i].wire, c->r[i].wn); k += c->r[i].wn; }
            c->posted = upto;
            post(c, b, n);
            free(b);
        }
        else { c->posted++; post(c, c->r[c->posted - 1].wire, c->r[c->posted - 1].wn); }
    }
    else if (c->bad && c->en) { post(c, c->extra, c->en); c->en = 0; if (PCT(70)) post_close(c); else sim_at(sim_now + (uint64_t)(1 + R(100)) * SEC, (void (*)(void *))post_close, c); }
    else post_close(c);
}
static int on_accept(int fd, int id, saddr_t *local)
{
    conn_t *c = &C[id];
    c->fd = fd; c->accepted = 1;
    if (sim_now - c->since > 5 * SEC)
    {
        int silent = 0;
        for (int i = 0; i < nC; i++) silent |= C[i].hs == H_SILENT;
        if (silent) vc_note("silent-handshake-blocks-others", "a client waited %.0f s to be accepted while another one did not begin its handshake", (sim_now - c->since) / 1e9);
        else if (!FAULTS) V("accept-delayed", "client %d was accepted %.1f s after it connected", id, (sim_now - c->since) / 1e9);
    }
    *local = c->a;
    c->last = sim_now;
    if (c->hs != H_SILENT) { c->last += 1 + R(50) * MSEC; sim_post(&c->peer, &c->a, "H", 1, c->last); }
    sim_at(c->last + 1 + R(20) * MSEC, post_next, c);
    if (c->bad && PCT(20)) sim_at(sim_now + (uint64_t)R(60000) * MSEC, (void (*)(void *))post_close, c);
    return 0;
}
static int status_of(int code)
{
    switch (code)
    {
    case 2 * 32 + 3: return 304;
    case 4 * 32 + 2: return 400;
    case 5 * 32 + 5: return 501;
    }
    return code >> 5 == 2 ? 200 : (code >> 5) * 100 + (code & 31);
}
static void judge(conn_t *c, int status, const uint8_t *body, size_t n, int length)
{
    if (c->bad) { if (status < 100 || status > 599) V("not-http", "status %d", status); n_resp++; return; }
    if (c->got >= c->posted) { V("unexpected-response", "client %d got response number %d to %d requests", c->id, c->got + 1, c->posted); return; }
    req_t *q = &c->r[c->got]; plan_t *p = &q->p;
    n_resp++;
    th = vc_mix(th, c->id * 1000 + status);
    vc_trace("%.3f client %d gets response %d: %d, %zu bytes", sim_now / 1e9, c->id, c->got, status, n);
    if (length < 0 && status != 304)
        V("no-length", "a response with status %d has no length", status);
    if (q->any_error || (FAULTS && status >= 400 && (status != (q->status ? q->status : status_of(p->code)) || (!q->status && !p->execs))))
    {
        n_err++;
        if (status < 400 && q->any_error != 2) V("error-hidden", "a request that cannot succeed was answered %d", status);
        if (!q->any_error) c->wrong = 1;
    }
    else if (q->status)
    {
        n_err++;
        if (status != q->status) V("wrong-status", "client %d request %d was answered %d instead of %d: %.60s", c->id, c->got, status, q->status, q->wire);
        if (p->execs) V("executed", "a request refused with %d reached the origin", status);
    }
    else
    {
        int blk = p->kind == K_BUP || p->kind == K_413 || p->kind == K_BGET;
        if (p->execs - p->plain != 1 || p->plain != (p->kind == K_413) || ((p->kind == K_BUP || p->kind == K_413) && p->rx != 1))
            V("executions", "client %d request %d (kind %d) answered after %d executions, %d bodies", c->id, c->got, p->kind, p->execs, p->rx);
        else if (status != status_of(p->code)) V("wrong-status", "client %d request %d (kind %d, %d up, %d down) was answered %d, the origin answered %d.%02d", c->id, c->got, p->kind, p->up, p->down, status, p->code >> 5, p->code & 31);
        else
        {
            plan_fill(want, p->down, p->salt + 1);
            if (FAULTS && status >= 400 && n == 0 && p->down) c->wrong = 1;
            else if (n != p->down || memcmp(body, want, n)) V("wrong-body", "client %d request %d (kind %d) was answered with %zu bytes that are not the %u of the origin", c->id, c->got, p->kind, n, p->down);
        }
        (void)blk;
    }
    c->got++;
    if (c->got == c->posted) { if (c->posted < c->nr || !c->closing) sim_at(sim_now + 1 + (PCT(80) ? R(5) * MSEC : (uint64_t)R(40) * SEC), post_next, c); }
}
/* an independent reader of HTTP responses */
static void on_out(conn_t *c)
{
    for (;;)
    {
        uint8_t *s = c->out + c->oi; size_t n = c->on - c->oi, e; int status = 0, length = -1;
        for (e = 0; e + 4 <= n && memcmp(s + e, "\r\n\r\n", 4); e++) ;
        if (e + 4 > n) return;
        if (n < 12 || memcmp(s, "HTTP/1.1 ", 9) || sscanf((char *)s + 9, "%3d", &status) != 1) { V("not-http", "not an HTTP response: %s", vc_hex(s, n > 60 ? 60 : n)); c->oi = c->on; return; }
        for (size_t i = 0; i < e; i++)
            if (s[i] == '\n' && i + 16 < e && !strncasecmp((char *)s + i + 1, "Content-Length:", 15)) { if (length >= 0) V("not-http", "two lengths"); length = atoi((char *)s + i + 16); }
        size_t b = length > 0 ? length : 0;
        if (n < e + 4 + b) return;
        judge(c, status, s + e + 4, b, length);
        c->oi += e + 4 + b;
        if (vc_viol_in_case) return;
    }
}
/* ---- the simulated TLS library */
int __wrap_gnutls_init(sess_t **s, unsigned f) { (void)f; *s = malloc(sizeof **s); (*s)->c = NULL; (*s)->fd = -1; sessions++; return 0; }
static void attach(sess_t *s, int fd) { s->fd = fd; for (int i = 0; i < nC; i++) if (C[i].accepted && !C[i].finished && C[i].fd == fd) { s->c = &C[i]; s->c->has_session = 1; } }
void __wrap_gnutls_transport_set_ptr(sess_t *s, void *p) { attach(s, (int)(long)p); }
void __wrap_gnutls_transport_set_int2(sess_t *s, int r, int w) { (void)w; attach(s, r); }
static void finish(conn_t *c)
{
    int n = 0;
    c->finished = 1;
    for (int i = 0; i < nC; i++) n += C[i].finished;
    if (n == nC) go = 0;
}
void __wrap_gnutls_deinit(sess_t *s) { sessions--; if (s->c) finish(s->c); free(s); }
/* 1: a record is there, 0: not yet, -1: end */
static int record(conn_t *c)
{
    if (c->po < c->pn) return 1;
    if (c->closed) return -1;
    ssize_t n = recv(c->fd, c->pend, sizeof c->pend, MSG_DONTWAIT);
    if (n < 0) return 0;
    if (n == 0) { c->closed = 1; return -1; }
    c->pn = n; c->po = 0;
    return 1;
}
int __wrap_gnutls_handshake(sess_t *s)
{
    conn_t *c = s->c;
    if (!c) { V("harness", "handshake on an unknown descriptor"); return GNUTLS_E_INTERNAL_ERROR; }
    int r = record(c);
    if (r == 0) return GNUTLS_E_AGAIN;
    if (r < 0) return GNUTLS_E_PREMATURE_TERMINATION;
    c->po = c->pn = 0;
    if (c->hs == H_FAIL) return GNUTLS_E_DECRYPTION_FAILED;
    return 0;
}
ssize_t __wrap_gnutls_record_recv(sess_t *s, void *b, size_t n)
{
    conn_t *c = s->c; int r = record(c);
    if (r == 0) return GNUTLS_E_AGAIN;
    if (r < 0) return 0;
    if (n > c->pn - c->po) n = c->pn - c->po;
    memcpy(b, c->pend + c->po, n);
    c->po += n;
    return n;
}
size_t __wrap_gnutls_record_check_pending(sess_t *s) { return s->c ? s->c->pn - s->c->po : 0; }
ssize_t __wrap_gnutls_record_send(sess_t *s, const void *b, size_t n)
{
    conn_t *c = s->c;
    if (PCT(10)) return GNUTLS_E_AGAIN;
    if (c->bad && c->closed && PCT(50)) return GNUTLS_E_PUSH_ERROR;
    if (n > 16384) n = 16384;
    if (PCT(20)) n = 1 + R(n);
    if (c->on + n > c->ocap) { c->ocap = 2 * (c->on + n); c->out = realloc(c->out, c->ocap + 1); }
    memcpy(c->out + c->on, b, n);
    c->on += n;
    c->out[c->on] = 0;
    if (!c->gone) on_out(c);
    return n;
}
int __wrap_gnutls_bye(sess_t *s, int how) { (void)how; conn_t *c = s->c; int r; while ((r = record(c)) > 0) c->po = c->pn = 0; return r == 0 ? GNUTLS_E_AGAIN : 0; }
int __wrap_gnutls_priority_set(void *s, void *p) { (void)s; (void)p; return 0; }
int __wrap_gnutls_credentials_set(void *s, int t, void *c) { (void)s; (void)t; (void)c; return 0; }
void __wrap_gnutls_db_set_ptr(void *s, void *p) { (void)s; (void)p; }
void __wrap_gnutls_db_set_store_function(void *s, void *p) { (void)s; (void)p; }
void __wrap_gnutls_db_set_retrieve_function(void *s, void *p) { (void)s; (void)p; }
void __wrap_gnutls_db_set_remove_function(void *s, void *p) { (void)s; (void)p; }
void __wrap_gnutls_certificate_server_set_request(void *s, int r) { (void)s; (void)r; }
int __wrap_gnutls_certificate_verify_peers2(void *s, unsigned *st) { (void)s; *st = 0; return 0; }
int __wrap_gnutls_certificate_type_get(void *s) { (void)s; return GNUTLS_CRT_X509; }
static gnutls_datum_t one_cert;
const gnutls_datum_t *__wrap_gnutls_certificate_get_peers(void *s, unsigned *n) { (void)s; *n = 1; return &one_cert; }
int __wrap_gnutls_x509_crt_init(void **c) { *c = &one_cert; return 0; }
void __wrap_gnutls_x509_crt_deinit(void *c) { (void)c; }
int __wrap_gnutls_x509_crt_import(void *c, const gnutls_datum_t *d, int f) { (void)c; (void)d; (void)f; return 0; }
time_t __wrap_gnutls_x509_crt_get_expiration_time(void *c) { (void)c; return 4000000000; }
time_t __wrap_gnutls_x509_crt_get_activation_time(void *c) { (void)c; return 1; }
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
int __wrap_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r)
{
    struct addrinfo x; memset(&x, 0, sizeof x);
    if (h) x = *h;
    x.ai_flags |= AI_NUMERICHOST | AI_NUMERICSERV; /* no name service here */
    return __real_getaddrinfo(n, s, &x, r);
}
static int inject(int pct) { if (fault_pct && PCT(pct) && faults < 3) { faults++; return 1; } return 0; }
typedef struct { void *(*fn)(void *); void *arg; } start_t;
static void starter(void *p) { start_t s = *(start_t *)p; free(p); s.fn(s.arg); }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    (void)a; (void)t;
    if (fn == connection_thread_func && inject(20)) return EAGAIN;
    start_t *s = malloc(sizeof *s);
    s->fn = fn; s->arg = arg;
    if (sim_actor_spawn(starter, s) < 0) { free(s); return EAGAIN; }
    return 0;
}
static int fault(const char *call)
{
    if (!strcmp(call, "socket") && inject(4)) return EMFILE;
    if (!strcmp(call, "timerfd_create") && inject(4)) return EMFILE;
    if (!strcmp(call, "connect") && inject(4)) return ENETUNREACH;
    return 0;
}
/* ---- the network between proxy and origins */
#define NP 512
static struct { unsigned mid; int have, drops, rdrops; uint64_t fifo, fifo_prev; } P[NP]; static int nP;
static unsigned host_of(const saddr_t *a) { return ntohl(((const struct sockaddr_in *)&a->ss)->sin_addr.s_addr) & 0xffffff; }
static unsigned port_of(const saddr_t *a) { return ntohs(((const struct sockaddr_in *)&a->ss)->sin_port); }
static void client_hook(const char *h, const char *p)
{
    saddr_t a; (void)h; (void)p;
    n_sw++;
    if (nP == NP) { printf("too many CoAP clients\n"); exit(2); }
    memset(&P[nP], 0, sizeof P[nP]);
    sim_addr(&a, 50, 20000 + nP++);
    sim_local_for_connect(&a);
}
void (*conn_client_hook)(const char *, const char *) = client_hook;
static uint64_t lag(void)
{
    switch (net.delay)
    {
    case 0: return 1000 + R(1000) * 1000ULL;
    case 1: return 1000 + R(200) * MSEC;
    default: return PCT(80) ? 1000 + R(100) * MSEC : (uint64_t)R(2000) * MSEC;
    }
}
static rmsg_t D;
static void raw_origin(const saddr_t *from, const saddr_t *to, const uint8_t *d, unsigned len)
{
    uint8_t b[1400]; unsigned n = 0;
    if (len < 4 || PCT(15)) return;
    unsigned tkl = d[0] & 15;
    if (tkl > 8 || 4 + tkl > len) return;
    memcpy(b, d, 4 + tkl); n = 4 + tkl;
    b[0] = 0x40 | 2 << 4 | tkl;
    switch (R(12))
    {
    case 0: b[0] = 0x70; b[1] = 0; n = 4; break;                 /* reset */
    case 1: n = R(200); rng_bytes(&vc_rng, b, n); break;
    case 2: b[1] = (uint8_t)rng_u64(&vc_rng); break;                     /* any code */
    case 3: b[1] = 2 << 5 | 5; b[n++] = 0xff; break;            /* marker without payload */
    case 4: b[1] = 2 << 5 | 5; b[n++] = 0xf0 | R(16); rng_bytes(&vc_rng, b + n, 20); n += 20; break;
    case 5: b[1] = 2 << 5 | 5; b[n++] = 0xd1; b[n++] = 10; b[n++] = (uint8_t)rng_u64(&vc_rng); b[n++] = 0xff; rng_bytes(&vc_rng, b + n, 40); n += R(40); break; /* some Block2 */
    case 6: b[1] = 2 << 5 | 5; b[n++] = 0x43; memcpy(b + n, "\r\nX", 3); n += 3; break; /* ETag */
    case 7: b[1] = 2 << 5 | 5; b[n++] = 0xff; rng_bytes(&vc_rng, b + n, 1200); n += 1000 + R(200); break;
    case 8: b[1] = 4 << 5 | 13; break;
    case 9: b[1] = 0; n = 4; b[0] = 0x60; break;                 /* an acknowledgement and nothing after */
    case 10: if (tkl) b[4] ^= 1; b[1] = 2 << 5 | 5; break;
    case 11: b[1] = 2 << 5 | 5; b[n++] = 0xdd; b[n++] = 255 - 13; b[n++] = 255; memset(b + n, 'x', 268); n += 268; break; /* a long option */
    }
    sim_post(to, from, b, n, sim_now + lag());
}
static int on_send(const saddr_t *from, const saddr_t *to, const void *d, unsigned len)
{
    int up = host_of(from) == 50, drop = 0, req; unsigned h = host_of(up ? to : from), k = port_of(up ? from : to) - 20000;
    if (r_decode(&D, d, len) != REF_OK) { V("malformed-sent", "a malformed datagram was sent: %s", vc_hex(d, len > 60 ? 60 : len)); return 0; }
    if (up && h == 8) { raw_origin(from, to, d, len); return 0; }
    if (h < 1 || h > NSRV || k >= (unsigned)nP) return 0;
    req = up && D.type < 2;
    if (req && (!P[k].have || P[k].mid != D.mid)) { P[k].have = 1; P[k].mid = D.mid; P[k].drops = P[k].rdrops = 0; P[k].fifo_prev = P[k].fifo; }
    drop = PCT(net.loss);
    if (drop)
    {
        if (up && !req) ;
        else if (D.type == 1) drop = 0;
        else if (up || D.type != 0) { if (P[k].drops >= 4) drop = 0; else P[k].drops++; }
        else { if (P[k].rdrops >= 3) drop = 0; else P[k].rdrops++; }
    }
    if (drop) { n_lost++; return 0; }
    int copies = 1 + (PCT(net.dup) ? 1 : 0);
    n_dup += copies - 1;
    while (copies--)
    {
        uint64_t at = sim_now + lag();
        if (req) { if (at <= P[k].fifo_prev) at = P[k].fifo_prev + 1000; if (at > P[k].fifo) P[k].fifo = at; }
        sim_post(from, to, d, len, at);
    }
    return 0;
}
/* ---- requests */
static const char *PORTS[NSRV] = { "5683", "5684", "7000" };
static size_t wire(char *b, size_t cap, const char *method, const char *uri, const char *hdrs, const void *body, size_t n, int chunked, int always)
{
    size_t k = snprintf(b, cap, "%s %s HTTP/1.1\r\n%s", method, uri, hdrs);
    if (!n && !always) k += snprintf(b + k, cap - k, "\r\n");
    else if (!chunked)
    {
        k += snprintf(b + k, cap - k, "Content-Length: %zu\r\n\r\n", n);
        memcpy(b + k, body, n); k += n;
    }
    else
    {
        k += snprintf(b + k, cap - k, "Transfer-Encoding: chunked\r\n\r\n");
        for (size_t i = 0; i < n;)
        {
            size_t m = 1 + R(PCT(50) ? 100 : 3000);
            if (m > n - i) m = n - i;
            k += snprintf(b + k, cap - k, "%zx\r\n", m);
            memcpy(b + k, (const char *)body + i, m); k += m; i += m;
            k += snprintf(b + k, cap - k, "\r\n");
        }
        k += snprintf(b + k, cap - k, "0\r\n\r\n");
    }
    return k;
}
static char B[70000];
static void headers(char *h, size_t cap)
{
    size_t k = 0;
    h[0] = 0;
    if (PCT(50)) k += snprintf(h + k, cap - k, "Host: proxy%d\r\n", R(1000));
    if (PCT(30)) k += snprintf(h + k, cap - k, "Accept: text/plain\r\n");
    for (int i = PCT(30) ? R(6) : 0; i > 0; i--) k += snprintf(h + k, cap - k, "X-%c%d: %0*d\r\n", 'a' + R(26), R(100), 1 + R(PCT(10) ? 300 : 20), R(1000));
}
static void request(conn_t *c, int i, int failing)
{
    static const char *M[] = { "", "GET", "POST", "PUT", "DELETE" }; static const char *PATHS[] = { "p", "sep", "a/b", "" };
    static const unsigned sz[] = { 16, 32, 64, 128, 256, 512 };
    static const int codes[] = { 0x41, 0x42, 0x43, 0x44, 0x45, 0x45, 0x44, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x8c, 0x8f, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5 };
    req_t *q = &c->r[i]; plan_t *p = &q->p; char uri[400], h[2000], port[16]; const char *m; static uint8_t body[OMAX];
    memset(q, 0, sizeof *q);
    p->salt = rng_u64(&vc_rng); p->server = R(NSRV); p->sb1 = sz[R(6)]; p->sb2 = sz[R(6)];
    p->kind = PCT(50) ? K_SMALL : (int[]){ K_BGET, K_BUP, K_413, K_BIGGET, K_NORIGIN, K_SMALL }[R(6)];
    if (failing && PCT(30)) p->kind = PCT(30) ? K_SILENT : K_RAW;
    p->method = 1 + R(4); p->code = codes[R(sizeof codes / sizeof *codes)];
    p->up = p->method == 1 ? (PCT(90) ? 0 : R(100)) : PCT(20) ? 0 : 1 + R(PCT(70) ? 100 : 1000); p->down = PCT(20) ? 0 : 1 + R(PCT(60) ? 100 : 1000);
    if (p->code == 0x43) p->down = 0;
    if (p->kind == K_BGET) { p->method = 1; p->up = 0; p->code = 0x45; p->down = 1 + R(PCT(60) ? 300 : PCT(80) ? 1500 : 8192); if (p->down > 1500) p->sb2 = 512; }
    if (p->kind == K_BUP || p->kind == K_413)
    {
        p->method = 2 + R(2); p->code = PCT(50) ? 0x44 : 0x41;
        p->up = p->kind == K_BUP ? 1025 + R(PCT(90) ? 600 : 7000) : 1 + R(PCT(80) ? 300 : 1024);
        p->down = PCT(40) ? 0 : 1 + R(p->up); if (p->down > 1500) p->down = 1500;
    }
    if (p->kind == K_BIGGET) { p->method = PCT(50) ? 1 : 4; p->up = 1025 + R(3000); }
    if (p->kind == K_BGET && PCT(5)) p->down = OMAX;
    if (p->kind == K_BGET && PCT(20)) { p->down = 4096 - 32 - R(16); p->sb2 = 512; } /* about the size of the proxy's buffer */
    if (p->kind == K_BUP && PCT(15)) p->up = 4096 - 60 - R(200);
    m = M[p->method];
    if (p->server < 2 && PCT(30)) port[0] = 0; else snprintf(port, sizeof port, ":%s", PORTS[p->server]);
    snprintf(uri, sizeof uri, "%s://%s%s/%s?%st%c%c", p->server == 1 ? "coaps" : PCT(50) || !port[0] ? "coap" : "coaps", sim_addr_str(1 + p->server), port, PATHS[p->kind == K_BGET || p->kind == K_BUP || p->kind == K_413 ? 0 : R(4)], PCT(20) ? "a=1&" : "", 'A' + c->id, 'A' + i);
    headers(h, sizeof h);
    if (p->kind == K_NORIGIN)
    {
        switch (R(4))
        {
        case 0: m = (const char *[]){ "PATCH", "OPTIONS", "FOO", "get" }[R(4)]; q->status = 501; break;
        case 1: snprintf(h, sizeof h, "Accept: text/html\r\n"); q->status = 406; break;
        case 2: snprintf(uri, sizeof uri, "http://10.0.0.1:80/x?t%c%c", 'A' + c->id, 'A' + i); q->status = 400; break;
        case 3: snprintf(uri, sizeof uri, "coap:x?t%c%c", 'A' + c->id, 'A' + i); q->status = 400; break;
        }
        p->up = PCT(50) ? 0 : R(2000);
    }
    if (p->kind == K_SILENT || p->kind == K_RAW)
    {
        if (p->kind == K_RAW) { q->maybe_closed = 1; q->any_error = 2; }
        else { q->any_error = 1; q->status = 504; }
        snprintf(uri, sizeof uri, "coap://%s:%d/x?t%c%c", sim_addr_str(p->kind == K_RAW ? 8 : 9), 5683 + R(2), 'A' + c->id, 'A' + i);
        p->up = PCT(50) ? 0 : R(2000);
    }
    plan_fill(body, p->up, p->salt);
    q->wn = wire(B, sizeof B, m, uri, h, body, p->up, PCT(25), PCT(50));
    q->wire = malloc(q->wn + 1); memcpy(q->wire, B, q->wn); q->wire[q->wn] = 0;
    vc_trace("client %d request %d kind %d: %s %s, %u up, %u down, code %02x", c->id, i, p->kind, m, uri, p->up, p->down, p->code);
    n_req++;
}
/* bytes of a client that does not play by the rules */
static void nasty(conn_t *c)
{
    static const char *U[] = { "coap://", "coap:///x", "coap://h", "coap://h:1", "coap://10.0.0.1:99999/", "coap://10.0.0.1:/", "coap:x", "*", "/", "", "coap://[::1]:5683/", "coap://%31:5683/", "coap://10.0.0.1:5683/%", "coap://10.0.0.1:5683/%00",
        "coap://u@10.0.0.1:5683/", "coap://10.0.0.1:5683#f", "coaps://10.0.0.2", "coap://10.0.0.9", "coap://10.0.0.8:5683/q", "coap://:5683/", "COAP://10.0.0.1/x?zz", "coap://10.0.0.1:5683/x?zz&zz" };
    static const char *M[] = { "GET", "PUT", "POST", "DELETE", "HEAD", "" };
    char h[2000]; size_t n = 0, cap = sizeof B - 100; static uint8_t body[20000];
    int kind = R(8);
    rng_bytes(&vc_rng, body, sizeof body);
    switch (kind)
    {
    case 0: n = 1 + R(3000); rng_bytes(&vc_rng, B, n); break;
    case 1: /* requests with odd targets */
        for (int k = 1 + R(5); k > 0; k--) { headers(h, sizeof h); n += wire(B + n, cap - n, M[R(6)], U[R(sizeof U / sizeof *U)], h, body, PCT(60) ? 0 : R(3000), PCT(50), 0); }
        break;
    case 2: case 3: /* requests with something changed */
        for (int k = 1 + R(4); k > 0; k--)
        {
            size_t s = n; headers(h, sizeof h);
            n += wire(B + n, cap - n, M[R(5)], U[16 + R(6)], h, body, PCT(40) ? 0 : R(2000), PCT(50), PCT(50));
            for (int f = 1 + R(4); f > 0; f--)
            {
                size_t at = s + R(n - s);
                switch (R(4))
                {
                case 0: B[at] ^= 1 << R(8); break;
                case 1: B[at] = (char[]){ 0, ' ', '\r', '\n', ':', '-', '9', 'f', (char)255 }[R(9)]; break;
                case 2: memmove(B + at, B + at + 1, n - at - 1); n--; break;
                default: memmove(B + at + 1, B + at, n - at); n++; break;
                }
            }
        }
        break;
    case 4: /* cut short */
        headers(h, sizeof h);
        n = wire(B, cap, M[R(4)], U[21], h, body, R(5000), PCT(50), 1);
        n = 1 + R(n);
        break;
    case 5: /* never ends */
        n = snprintf(B, cap, "GET coap://10.0.0.1/ HTTP/1.1\r\nX: "); { int k = R(60000); memset(B + n, PCT(50) ? 'x' : ':', k); n += k; } break;
    case 6: /* odd sizes of the body */
        n = snprintf(B, cap, "PUT coap://10.0.0.1:5683/x?zz HTTP/1.1\r\n%s%s\r\n", (const char *[]){ "Content-Length: 99999999999\r\n", "Content-Length: -1\r\n", "Content-Length: 9000\r\n", "Content-Length: 8193\r\n", "Content-Length: 8192\r\n", "Transfer-Encoding: chunked\r\n", "Content-Length: 5\r\nTransfer-Encoding: chunked\r\n" }[R(7)], PCT(30) ? "Accept: x\r\n" : "");
        if (PCT(50)) n += snprintf(B + n, cap - n, "%s\r\n", (const char *[]){ "ffffffffffffffff", "-1", "7fffffff", "2329", "0x10", "" }[R(6)]);
        { int k = R(12000); memcpy(B + n, body, k); n += k; }
        break;
    default: /* fine requests, odd pace or an early end */
        for (int k = 1 + R(3); k > 0; k--) { headers(h, sizeof h); n += wire(B + n, cap - n, M[R(4)], "coap://10.0.0.1:5683/x?zz", h, body, PCT(40) ? 0 : R(2000), PCT(50), 0); }
        c->slow = PCT(60);
        break;
    }
    c->extra = malloc(n + 1); memcpy(c->extra, B, n); c->en = n;
    th = vc_mix(th, kind * 100000 + n);
}
static listener_t *lst; static tls_server_t tls_srv;
static void main_actor(void *p)
{
    (void)p;
    lst = listener_new(0, &tls_srv, &param, 120, 10);
    if (!lst) { go = 0; if (!faults && !vh_failed) V("harness", "no listener"); return; }
    if (listener_run(lst) < 0) { listener_delete(lst); go = 0; V("harness", "listener_run failed"); }
}
static void origin_main(void *p) { origin_run((int)(long)p); }
static void too_late(void *p) { (void)p; if (go) { for (int i = 0; i < nC; i++) if (!C[i].finished && C[i].accepted) { V("stuck", "the connection of client %d is still open after a day", i); break; } else if (!C[i].accepted) { V("not-accepted", "client %d was not accepted within a day", i); break; } go = 0; } }
enum { W_SERVE, W_HOSTILE, W_OOM };
static void world(int w)
{
    static int up;
    if (!up)
    {
        FILE *f = fopen("h_conn.conf", "w");
        fprintf(f, "[connection]\nport=4430\n"); fclose(f);
        if (param_create(&param, "h_conn.conf") || connection_init()) { printf("cannot start\n"); exit(2); }
        remove("h_conn.conf");
        up = 1;
    }
    sim_reset(rng_u64(&vc_rng)); th = 0;
    memset(C, 0, sizeof C); nP = 0; faults = 0; sessions = 0;
    lax = w == W_HOSTILE; memset(&laxplan, 0, sizeof laxplan); laxplan.kind = K_NORIGIN; laxplan.code = 0x45; laxplan.down = R(200);
    net.loss = PCT(50) ? 0 : (int[]){ 5, 20, 40 }[R(3)]; net.dup = (int[]){ 0, 10, 40 }[R(3)]; net.delay = R(3);
    fault_pct = w == W_HOSTILE && PCT(30);
    vmem_reset();
    if (coap_mem_all_create(256, 256, 256, 1024, 64, OMAX)) { printf("cannot create pools\n"); exit(2); }
    nC = 1 + R(w == W_OOM ? 3 : 5);
    go = 1;
    for (int i = 0; i < nC; i++)
    {
        conn_t *c = &C[i];
        c->id = i; c->style = R(5); c->pipe = PCT(40);
        c->bad = w == W_HOSTILE && PCT(50);
        sim_addr(&c->a, 60, 1000 + i); sim_addr(&c->peer, 70 + i, 2000 + i);
        if (!c->bad) { c->nr = 1 + R(PCT(30) ? MAXR : 3); for (int k = 0; k < c->nr; k++) request(c, k, w == W_HOSTILE); }
        else { if (PCT(10)) c->hs = PCT(70) ? H_FAIL : H_SILENT; nasty(c); }
    }
    for (long i = 0; i < NSRV; i++)
    {
        if (origin_create(i, sim_addr_str(1 + i), PORTS[i])) { printf("cannot create origin\n"); exit(2); }
        sim_actor_daemon(sim_actor(origin_main, (void *)i));
    }
    sim_on_send = on_send; sim_on_accept = on_accept; sim_fault = fault;
    sim_actor(main_actor, NULL);
    sim_addr(&la, 0, 4430); ((struct sockaddr_in *)&la.ss)->sin_addr.s_addr = htonl(INADDR_ANY);
    for (int i = 0; i < nC; i++) { C[i].since = sim_now + 1 + (uint64_t)R(PCT(50) ? 100 : 20000) * MSEC; sim_post(&C[i].peer, &la, &(int){ i }, sizeof(int), C[i].since); }
    sim_at(sim_now + 86400 * SEC, too_late, NULL);
    vh_forget();
    vh_begin(w == W_OOM ? 1 + R(PCT(50) ? 60 : 400) : 0);
    sim_run_actors();
    vh_pause();
    if (w == W_OOM) faults += vh_failed;
    int bad = 0;
    if (!lst) faults += nC;
    for (int i = 0; i < nC && !vc_viol_in_case; i++)
    {
        conn_t *c = &C[i];
        if (c->bad) continue;
        int maybe = 0;
        for (int k = 0; k <= c->got && k < c->nr; k++) maybe |= c->r[k].maybe_closed;
        if (c->on != c->oi) V("not-http", "client %d got part of a response: %s", i, vc_hex(c->out + c->oi, c->on - c->oi > 60 ? 60 : c->on - c->oi));
        if (c->got < c->nr && !maybe) { bad++; if (!faults) V("lost-response", "client %d got %d responses to %d requests: %.80s", i, c->got, c->posted, c->r[c->got].wire); }
        else if (c->wrong) bad++;
    }
    if (bad > faults && !vc_viol_in_case) V("lost-response", "%d clients were not served after %d faults", bad, faults);
    if (vh_live()) V("heap-leak", "%ld blocks left after all connections were closed", vh_live());
    if (sessions) V("session-leak", "%d TLS sessions left", sessions);
    for (int i = 0; i < NSRV; i++) origin_destroy(i);
    if (sim_open_fds()) V("fd-leak", "%d descriptors left open", sim_open_fds());
    if (sim_bad_close) V("bad-close", "%ld closes of descriptors that were not open", sim_bad_close);
    if (vmem_live() || vmem_bad_frees) { V("pool-leak", "%ld pool buffers left, %ld bad frees", vmem_live(), vmem_bad_frees); vmem_drop_all(); }
    coap_mem_all_destroy();
    for (int i = 0; i < nC; i++) { for (int k = 0; k < C[i].nr; k++) free(C[i].r[k].wire); free(C[i].extra); free(C[i].out); }
    vc_distinct(vc_mix(th, sim_sched_hash));
    if (vc_want_sample()) vc_sample("%d clients (%d requests to the first), loss %d%%, dup %d%%: schedule of %ld switches, %ld pieces so far", nC, C[0].nr, net.loss, net.dup, sim_switches, n_pieces);
    vc_count("requests", n_req); vc_count("responses", n_resp); vc_count("error_responses", n_err); vc_count("pieces", n_pieces); vc_count("coap_clients", n_sw); vc_count("lost", n_lost); vc_count("duplicated", n_dup);
    vc_count("actor_switches", sim_switches); vc_count("injected_faults", faults); vc_count("clients", nC);
    n_req = n_resp = n_err = n_pieces = n_sw = n_lost = n_dup = 0; (void)n_early;
}
static void m_serve(void) { world(W_SERVE); }
static void m_hostile(void) { world(W_HOSTILE); }
static void m_oom(void) { world(W_OOM); }
int main(int c, char **v)
{
    static const vc_mode_t m[] = {
        {"serve", m_serve, "1-5 HTTP clients, 1-8 requests each, pipelined or not, in any pieces, to three origins over a lossy network; distinct response traces and schedules"},
        {"hostile", m_hostile, "the same among clients that send malformed, endless, truncated or odd requests, failing origins and failing system calls; distinct response traces and schedules"},
        {"oom", m_oom, "one heap allocation of the proxy fails; distinct response traces and schedules"}, {0, 0, 0}};
    return vc_main(c, v, m);
}
/* the sanitizers' handlers must be able to report a crash in any thread */
int __wrap_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { (void)how; (void)s; (void)o; return 0; }
