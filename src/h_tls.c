/* TLS sockets of the proxy (tls_sock.c, tls.c) with real GnuTLS over simulated TCP: authentication of both sides,
   resumption, integrity of the byte streams whatever the read and write sizes, silent, truncating and tampering peers. */
#include "sim.h"
#include "dtls.h"
#include "pki.h"
#include <errno.h>
#include <unistd.h>
#include <strings.h>
#include <fcntl.h>
#include <sys/select.h>
#include <gnutls/gnutls.h>
#include "tls.h"
#include "tls_sock.h"
#define R(n) rng_below(&vc_rng, (n))
#define PCT(n) rng_chance(&vc_rng, (n), 100)
#define V vc_viol
extern int simlog_verbose;
#include "certs.h"
#ifdef TLS_CLIENT_AUTH
#define AUTH 1
#else
#define AUTH 0
#endif
/* ---- transport: GnuTLS reads and writes through the simulated sockets */
#define MAXC 10
#define NSRV 2
enum { N_FINE, N_SILENT_SERVER, N_SILENT_CLIENT, N_GARBAGE, N_HALF, N_CUT, N_FLIP, N_STALL };
typedef struct { uint64_t sent, taken, last; int cut, flip; } dir_t;
typedef struct
{
    int id, srv, net, cl, name, nph, accepted, srv_ret, cli_ret, srv_done, resumed; double t0;
    saddr_t ca, la; dir_t d[2];                                /* 0: client to server */
    struct { int dir; unsigned len, wmax, rmax; int full, pause, rehs; } ph[6];
    uint64_t salt; uint64_t wrote[2], got[2]; int writing[2], closing[2], pauses; uint64_t hurt_at; int hurt;   /* interfered with */
    tls_sock_t s;
} conn_t;
static conn_t K[MAXC]; static int nK, over; static uint64_t window, trace_h;
static tls_client_t CL[3]; static int cl_cert[3], cl_tr[3], nCL;   /* cl_cert -1: none */
static tls_server_t SV[NSRV]; static tls_ssock_t SS[NSRV]; static int sv_cert[NSRV], sv_tr[NSRV], nSV, timeout_s, hs_busy[NSRV];
static long n_open, n_bytes, n_refs, n_refc, n_to, n_res, n_full, n_broken, n_part, n_again, n_rehs;
static saddr_t sa[NSRV];
static double rel(void) { return (double)sim_now / SEC - 1000; }
static uint8_t byte(conn_t *k, int dir, uint64_t off) { return (uint8_t)(vc_mix(k->salt + dir, off >> 3) >> (8 * (off & 7))); }
static conn_t *by_addr(const saddr_t *a, int *dir)
{
    for (int i = 0; i < nK; i++) { if (sim_addr_eq(&K[i].ca, a)) { *dir = 0; return &K[i]; } if (sim_addr_eq(&K[i].la, a)) { *dir = 1; return &K[i]; } }
    return NULL;
}
static int on_send(const saddr_t *from, const saddr_t *to, const void *p, unsigned len)
{
    int dir; conn_t *k = by_addr(from, &dir); uint8_t b[20000]; (void)to;
    if (!k || over) return EPIPE;
    dir_t *d = &k->d[dir];
    if (d->cut) return 0;                                       /* lost beyond the cut */
    if (len > sizeof b) len = sizeof b;
    memcpy(b, p, len);
    if (k->net == N_CUT && d->sent + len >= k->hurt_at && k->hurt == dir) { d->cut = 1; }
    if (k->net == N_FLIP && k->hurt == dir && k->hurt_at >= d->sent && k->hurt_at < d->sent + len) { b[k->hurt_at - d->sent] ^= 1 << R(8); d->flip = 1; }
    if (k->net == N_STALL && k->hurt == dir && d->sent >= k->hurt_at) { d->sent += len; return 0; }
    d->sent += len;
    vc_trace("%.3f net conn %d %s %u bytes (sent %llu taken %llu)", rel(), k->id, dir ? "to client" : "to server", len, (unsigned long long)d->sent, (unsigned long long)d->taken);
    uint64_t at = sim_now + (1 + (uint64_t)R(PCT(80) ? 20 : 400)) * MSEC;   /* after the listener had a chance to accept */
    if (at <= d->last) at = d->last + 1;
    d->last = at;
    if (d->cut) { sim_post(dir ? &sa[k->srv] : &k->ca, dir ? &k->ca : &k->la, b, 0, at); return 0; }
    sim_post(dir ? &sa[k->srv] : &k->ca, dir ? &k->ca : &k->la, b, len, at);
    return 0;
}
static void on_consume(const pkt_t *p, unsigned got) { int dir; conn_t *k = by_addr(&p->to, &dir); if (k) k->d[!dir].taken += got; }
static void on_close(const saddr_t *local, const saddr_t *peer)
{
    int dir; conn_t *k = by_addr(local, &dir); (void)peer;
    if (!k || over || k->d[dir].cut) return;
    k->d[dir].cut = 1;
    sim_post(dir ? &sa[k->srv] : &k->ca, dir ? &k->ca : &k->la, "", 0, k->d[dir].last > sim_now ? k->d[dir].last + 1 : sim_now + 1);
}
static int room(int fd, uint64_t *n)
{
    saddr_t l, p; int dir; conn_t *k;
    if (sim_sock_addr(fd, &l, &p) || !(k = by_addr(&l, &dir))) { *n = 0; return 0; }
    if (!k->writing[dir]) { *n = 65536; return 1; }             /* a handshake fits in the send buffer */
    uint64_t f = k->d[dir].sent - k->d[dir].taken;
    if (k->d[dir].cut || k->net == N_FLIP) f = 0;
    *n = f >= window ? 0 : window - f;
    return *n != 0;
}
static int writable(int fd) { uint64_t n; return room(fd, &n); }
static ssize_t my_push(gnutls_transport_ptr_t p, const void *d, size_t n)
{
    int fd = (int)(long)p; uint64_t m;
    if (!room(fd, &m) || (m < 65536 && PCT(3))) { n_again++; errno = EAGAIN; return -1; }
    if (n > m) { n = m; n_part++; }
    if (n > 1 && PCT(20)) { n = 1 + R(n); n_part++; }
    return send(fd, d, n, 0);
}
static ssize_t my_pull(gnutls_transport_ptr_t p, void *d, size_t n)
{
    if (n > 1 && PCT(20)) n = 1 + R(n);
    return recv((int)(long)p, d, n, 0);
}
static int my_wait(gnutls_transport_ptr_t p, unsigned ms)
{
    fd_set f; struct timeval t = { ms / 1000, (ms % 1000) * 1000L }; int fd = (int)(long)p;
    FD_ZERO(&f); FD_SET(fd, &f);
    return select(fd + 1, &f, NULL, NULL, ms == (unsigned)-1 ? NULL : &t);
}
static void transport(gnutls_session_t s) { gnutls_transport_set_push_function(s, my_push); gnutls_transport_set_pull_function(s, my_pull); gnutls_transport_set_pull_timeout_function(s, my_wait); }
void __real_gnutls_transport_set_ptr(gnutls_session_t s, gnutls_transport_ptr_t p);
void __wrap_gnutls_transport_set_ptr(gnutls_session_t s, gnutls_transport_ptr_t p) { __real_gnutls_transport_set_ptr(s, p); transport(s); }
void __wrap_gnutls_transport_set_int2(gnutls_session_t s, int r, int w) { (void)w; __real_gnutls_transport_set_ptr(s, (gnutls_transport_ptr_t)(long)r); transport(s); }
static int tls12;
int __real_gnutls_priority_init(gnutls_priority_t *p, const char *s, const char **e);
int __wrap_gnutls_priority_init(gnutls_priority_t *p, const char *s, const char **e)
{   /* as a system-wide policy may: without TLS 1.3 sessions are resumed from the caches */
    char b[200]; snprintf(b, sizeof b, "%s:-VERS-TLS1.3", s);
    return __real_gnutls_priority_init(p, tls12 ? b : s, e);
}
static void nap(uint64_t ns) { struct timespec ts = { (time_t)(ns / SEC), (long)(ns % SEC) }; pselect(0, NULL, NULL, NULL, &ts, NULL); }
/* ---- sessions */
static int good_client(conn_t *k, double t0, double t1), good_server(conn_t *k, double t0, double t1);
static int refused(conn_t *k) { return good_client(k, k->t0, rel() + 1) != 1 || good_server(k, k->t0, rel() + 1) != 1; }     /* by either side, or may be */
static int disturbed(conn_t *k) { return k->net != N_FINE || refused(k); }
static int transfer(conn_t *k, tls_sock_t *s, int me)          /* me: 0 client, 1 server; nonzero: over */
{
    static _Thread_local uint8_t b[40000];
    for (int i = 0; i < k->nph; i++)
    {
        unsigned n = 0; ssize_t r;
        if (k->ph[i].dir == me)
        {
            if (k->ph[i].rehs && me == 1) { int q = tls_sock_rehandshake(s); n_rehs++; vc_trace("%.3f conn %d rehandshake: %d", rel(), k->id, q); if (q != SOCK_OK) { k->net = N_STALL; return 1; } }
            while (n < k->ph[i].len)
            {
                unsigned m = 1 + R(k->ph[i].wmax); uint64_t t = sim_now;
                if (m > k->ph[i].len - n) m = k->ph[i].len - n;
                for (unsigned j = 0; j < m; j++) b[j] = byte(k, me, k->wrote[me] + j);
                if (k->ph[i].pause && PCT(10) && k->pauses < 4) { k->pauses++; nap(R(900) * MSEC); }
                t = sim_now;
                k->wrote[me] += m;                             /* allowed to arrive from now on */
                k->writing[me] = 1;
                r = k->ph[i].full ? tls_sock_write_full(s, b, m) : tls_sock_write(s, b, m);
                k->writing[me] = 0;
                if (r > (ssize_t)m || r == 0) V("write-count", "writing %u bytes returned %zd", m, r);
                if (r > 0 && k->ph[i].full && r != (ssize_t)m) V("write-count", "writing all of %u bytes returned %zd", m, r);
                if (r <= 0)
                {
                    vc_trace("%.3f conn %d: %s write of %u after %llu: %zd", rel(), k->id, me ? "server" : "client", m, (unsigned long long)k->wrote[me], r);
                    if (!disturbed(k)) V("write-failed", "writing failed (%zd) on an undisturbed connection", r);
                    else if (sim_now - t > (uint64_t)timeout_s * SEC * (k->ph[i].full ? 40 : 3) + 5 * SEC) V("no-timeout", "writing took %.1f s, the timeout is %d s", (sim_now - t) / 1e9, timeout_s);
                    return 1;
                }
                k->wrote[me] -= m - r; n += r;
            }
        }
        else
        {
            while (n < k->ph[i].len)
            {
                unsigned m = 1 + R(k->ph[i].rmax); uint64_t t; int full = k->ph[i].full;
                if (full && m > k->ph[i].len - n) m = k->ph[i].len - n;
                if (k->ph[i].pause && PCT(10) && k->pauses < 4) { k->pauses++; nap(R(900) * MSEC); }
                memset(b, 0xee, m < sizeof b - 16 ? m + 16 : sizeof b);
                t = sim_now;
                r = full ? tls_sock_read_full(s, b, m) : tls_sock_read(s, b, m);
                if (r <= 0)
                {
                    vc_trace("%.3f conn %d: %s read of %u after %llu: %zd", rel(), k->id, me ? "server" : "client", m, (unsigned long long)k->got[me], r);
                    if (!disturbed(k)) V("read-failed", "reading failed (%zd) after %llu of %u bytes on an undisturbed connection", r, (unsigned long long)n, k->ph[i].len);
                    else if (sim_now - t > (uint64_t)timeout_s * SEC * (full ? 40 : 3) + 5 * SEC) V("no-timeout", "reading took %.1f s, the timeout is %d s", (sim_now - t) / 1e9, timeout_s);
                    if (r == 0 && !refused(k) && !k->closing[!me]) V("truncation-hidden", "the end of the stream was reported as orderly although the peer had not closed");
                    if (r == SOCK_TIMEOUT) n_to++;
                    return 1;
                }
                if (r > (ssize_t)m || (full && r != (ssize_t)m)) V("read-count", "reading %u bytes returned %zd", m, r);
                if (b[r < (ssize_t)sizeof b ? r : 0] != 0xee && r < (ssize_t)m) V("read-beyond", "reading %zd bytes changed the buffer behind them", r);
                if (k->got[me] + r > k->wrote[!me]) { V("bytes-invented", "%llu bytes were read, %llu written", (unsigned long long)(k->got[me] + r), (unsigned long long)k->wrote[!me]); return 1; }
                for (ssize_t j = 0; j < r; j++)
                    if (b[j] != byte(k, !me, k->got[me] + j)) { V("stream-corrupt", "byte %llu of the stream differs", (unsigned long long)(k->got[me] + j)); return 1; }
                k->got[me] += r; n += r; n_bytes += r;
            }
            if (n > k->ph[i].len) V("bytes-invented", "more bytes than were written");
        }
    }
    return 0;
}
static void session(void *p)
{
    conn_t *k = p;
    if (!transfer(k, &k->s, 1) && !disturbed(k))
    {   /* the client closes first: an orderly end */
        uint8_t b[8]; ssize_t r = tls_sock_read(&k->s, b, sizeof b);
        if (r != 0) V("no-orderly-end", "after the peer closed reading returned %zd", r);
    }
    k->closing[1] = 1;
    tls_sock_close(&k->s);
    k->srv_done = 1;
}
static int good_client(conn_t *k, double t0, double t1)
{
    if (!AUTH) return 1;
    if (cl_cert[k->cl] < 0 || sv_tr[k->srv] < 0) return 0;
    return trusted(S[cl_cert[k->cl]].name, sv_tr[k->srv], 0, t0, t1);
}
static int good_server(conn_t *k, double t0, double t1)
{
    if (!named(S[sv_cert[k->srv]].name, NM[k->name])) return 0;
    return trusted(S[sv_cert[k->srv]].name, cl_tr[k->cl], 0, t0, t1);
}
static void server_main(void *p)
{
    int i = (int)(long)p; tls_sock_t s;
    for (;;)
    {
        uint64_t t = sim_now; int r; conn_t *k; double t0;
        r = tls_ssock_accept(&SS[i], &s);
        if (over) return;
        k = NULL;
        for (int j = 0; j < nK; j++) if (K[j].srv == i && K[j].accepted == 1) { k = &K[j]; k->accepted = 2; break; }
        if (!k) { if (r == SOCK_OK) V("phantom", "a connection nobody made was accepted"); continue; }
        hs_busy[i] = 0;
        t0 = k->t0; k->srv_ret = r;
        vc_trace("%.3f server %d accept of connection %d: %d", rel(), i, k->id, r);
        if (sim_now - t > 2ULL * (uint64_t)timeout_s * SEC + 2 * SEC) V("no-timeout", "accepting took %.1f s, the timeout is %d s", (sim_now - t) / 1e9, timeout_s);
        int g = good_client(k, t0, rel() + 1);
        if (r == SOCK_OK)
        {
            if (g == 0) V("bad-client-accepted", "a client with certificate %s was accepted (trust '%s')", cl_cert[k->cl] < 0 ? "none" : S[cl_cert[k->cl]].name, sv_tr[i] < 0 ? "(none)" : TR[sv_tr[i]]);
            if (k->net == N_SILENT_CLIENT || k->net == N_GARBAGE || k->net == N_HALF) V("phantom", "a connection without handshake was accepted");
            k->s = s;
            if (gnutls_session_is_resumed(s.session)) { k->resumed = 1; n_res++; } else n_full++;
            sim_actor_spawn(session, k);
        }
        else
        {
            if (g == 0) n_refc++;
            k->srv_done = 1;
            if (r == SOCK_TIMEOUT) n_to++;
        }
    }
}
static int on_accept(int fd, int id, saddr_t *local) { (void)fd; *local = K[id].la; K[id].accepted = 1; return 0; }
static void client_main(void *p)
{
    for (int i = (int)(long)p; i < nK && !vc_viol_in_case; i += 2)
    {
        conn_t *k = &K[i]; tls_sock_t s; int r, gs, gc; uint64_t t; char port[8]; saddr_t any;
        nap(PCT(60) ? R(1500) * MSEC : R(200) * SEC);
        while (hs_busy[k->srv] && !vc_viol_in_case) nap(100 * MSEC);            /* the listener performs one handshake at a time */
        if (k->net != N_SILENT_SERVER) hs_busy[k->srv] = 1;
        sim_local_for_connect(&k->ca);
        k->t0 = rel(); t = sim_now;
        any = sa[k->srv];
        if (any.ss.ss_family == AF_INET) ((struct sockaddr_in *)&any.ss)->sin_addr.s_addr = 0; else memset(&((struct sockaddr_in6 *)&any.ss)->sin6_addr, 0, 16);
        if (k->net != N_SILENT_SERVER) sim_post(&k->ca, &any, &(int){ i }, sizeof(int), sim_now + 1);
        else k->srv_done = 1;
        if (k->net == N_SILENT_CLIENT || k->net == N_GARBAGE || k->net == N_HALF)
        {
            int fd = socket(sa[0].ss.ss_family, SOCK_STREAM, 0); uint8_t b[400]; static const uint8_t hello[] = { 22, 3, 1, 0, 200, 1, 0, 0, 196, 3, 3, 1, 2, 3, 4 };
            connect(fd, (struct sockaddr *)&sa[k->srv].ss, sa[k->srv].len);
            n_broken++;
            if (k->net == N_GARBAGE) { unsigned n = 1 + R(400); rng_bytes(&vc_rng, b, n); if (PCT(50)) { b[0] = 22; if (n > 4) { b[1] = 3; b[2] = 1; b[3] = 0; b[4] = 60; } } send(fd, b, n, 0); }
            if (k->net == N_HALF) send(fd, hello, 1 + R(sizeof hello), 0);
            nap(PCT(50) ? (timeout_s + 5) * SEC : R(3000) * MSEC);
            close(fd);
            while (!k->srv_done && !vc_viol_in_case) nap(100 * MSEC);
            continue;
        }
        snprintf(port, sizeof port, "%d", 7000 + k->srv);
        r = k->cli_ret = tls_sock_open(&s, &CL[k->cl], sim_addr_str(1), port, NM[k->name], timeout_s);
        gs = good_server(k, k->t0, rel() + 1); gc = good_client(k, k->t0, rel() + 1);
        vc_trace("%.3f connection %d (client %d certificate %s, server %d certificate %s, name '%s', net %d): %d", rel(), i, k->cl, cl_cert[k->cl] < 0 ? "none" : S[cl_cert[k->cl]].name, k->srv, S[sv_cert[k->srv]].name, NM[k->name] ? NM[k->name] : "(none)", k->net, r);
        trace_h = vc_mix(trace_h, (((uint64_t)(r + 100) * 64 + cl_cert[k->cl] + 1) * 64 + sv_cert[k->srv]) * 16 + k->name + k->net * 1000003ULL);
        if (sim_now - t > (uint64_t)timeout_s * SEC + 2 * SEC && (k->net == N_SILENT_SERVER)) V("no-timeout", "opening took %.1f s, the timeout is %d s", (sim_now - t) / 1e9, timeout_s);
        if (k->net == N_SILENT_SERVER && r == SOCK_TIMEOUT) n_to++;
        if (r == SOCK_OK && gs == 0) V("bad-server-accepted", "a server with certificate %s was accepted (trust '%s', name '%s')%s", S[sv_cert[k->srv]].name, TR[cl_tr[k->cl]], NM[k->name] ? NM[k->name] : "(none)", gnutls_session_is_resumed(s.session) ? ", session resumed" : "");
        if (r == SOCK_OK && k->net == N_SILENT_SERVER) V("phantom", "opening succeeded without a server");
        if (gs == 0) n_refs++;
        if (!disturbed(k) && gs == 1 && gc == 1 && r != SOCK_OK) V("good-peers-refused", "opening failed (%d): server certificate %s, client certificate %s", r, S[sv_cert[k->srv]].name, cl_cert[k->cl] < 0 ? "none" : S[cl_cert[k->cl]].name);
        if (r == SOCK_OK)
        {
            n_open++;
            if (gc == 1 && gs == 1)
            {
                int x = transfer(k, &s, 0);
                if (!x && !disturbed(k) && (k->got[0] != k->wrote[1])) V("bytes-missing", "%llu of %llu bytes arrived", (unsigned long long)k->got[0], (unsigned long long)k->wrote[1]);
            }
            t = sim_now;
            k->closing[0] = 1;
            tls_sock_close(&s);
            if (sim_now - t > (uint64_t)timeout_s * SEC + 4 * SEC) V("no-timeout", "closing took %.1f s, the timeout is %d s", (sim_now - t) / 1e9, timeout_s);
        }
        for (int j = 0; j < 2000 && !k->srv_done && !vc_viol_in_case; j++) nap(100 * MSEC);
        if (!k->srv_done && !vc_viol_in_case) V("server-stuck", "the server is still busy with connection %d", i);
        if (!disturbed(k) && gs == 1 && gc == 1 && k->srv_ret != SOCK_OK && !vc_viol_in_case) V("good-peers-refused", "accepting failed (%d)", k->srv_ret);
        if (!disturbed(k) && gs == 1 && gc == 1 && k->got[1] != k->wrote[0] && !vc_viol_in_case) V("bytes-missing", "%llu of %llu bytes arrived", (unsigned long long)k->got[1], (unsigned long long)k->wrote[0]);
    }
}
static void m_tls(void)
{
    char c[64], f[64];
    simlog_verbose = vc_verbose;
    sim_reset(rng_u64(&vc_rng)); trace_h = 0; over = 0;
    memset(K, 0, sizeof K);
    sim_streams = 1; sim_on_send = on_send; sim_on_consume = on_consume; sim_on_close = on_close; sim_writable = writable; sim_on_accept = on_accept; hs_busy[0] = hs_busy[1] = 0;
    tls12 = PCT(60);
    if (tls_init() != SOCK_OK) { printf("cannot initialise\n"); exit(2); }
    timeout_s = 8 + R(20); window = PCT(50) ? 65536 : 200 + R(4000);
    nSV = 1 + R(NSRV); nCL = 1 + R(3);
    for (int i = 0; i < nSV; i++)
    {
        sv_cert[i] = PCT(60) ? FIRST : FIRST + (int)R(NS - FIRST); sv_tr[i] = PCT(75) ? 1 : (int)R(5) ; if (sv_tr[i] == 0) sv_tr[i] = -1;
        sim_addr(&sa[i], 1, 7000 + i);
        snprintf(c, sizeof c, "%s.crt", S[sv_cert[i]].name); snprintf(f, sizeof f, "%s.key", S[sv_cert[i]].name);
        if (tls_server_create(&SV[i], sv_tr[i] < 0 ? NULL : TR[sv_tr[i]], c, f) != SOCK_OK) { printf("cannot create server\n"); exit(2); }
        snprintf(c, sizeof c, "%d", 7000 + i);
        if (tls_ssock_open(&SS[i], &SV[i], c, timeout_s, 10) != SOCK_OK) { printf("cannot listen\n"); exit(2); }
    }
    for (int i = 0; i < nCL; i++)
    {
        cl_cert[i] = PCT(60) ? FIRST : PCT(10) ? -1 : FIRST + (int)R(NS - FIRST); cl_tr[i] = PCT(80) ? 1 : 1 + (int)R(4);
        if (cl_cert[i] >= 0) { snprintf(c, sizeof c, "%s.crt", S[cl_cert[i]].name); snprintf(f, sizeof f, "%s.key", S[cl_cert[i]].name); }
        if (tls_client_create(&CL[i], TR[cl_tr[i]], cl_cert[i] < 0 ? NULL : c, cl_cert[i] < 0 ? NULL : f) != SOCK_OK) { printf("cannot create client\n"); exit(2); }
    }
    nK = 1 + R(MAXC);
    for (int i = 0; i < nK; i++)
    {
        conn_t *k = &K[i]; k->id = i; k->srv = R(nSV); k->cl = R(nCL); k->net = PCT(70) ? N_FINE : 1 + (int)R(7); k->name = PCT(80) ? 0 : (int)R(NNM); k->salt = rng_u64(&vc_rng);
        sim_addr(&k->ca, 20 + k->cl, 40000 + i); sim_addr(&k->la, 1, 50000 + i);
        k->hurt = R(2); k->hurt_at = PCT(50) ? R(4000) : R(60000);
        k->nph = 1 + R(5);
        for (int j = 0; j < k->nph; j++)
        {
            k->ph[j].dir = R(2); k->ph[j].len = PCT(30) ? 1 + R(20) : PCT(70) ? 1 + R(3000) : 1 + R(60000);
            k->ph[j].wmax = PCT(40) ? 1 + R(100) : 1 + R(39000); k->ph[j].rmax = PCT(40) ? 1 + R(100) : 1 + R(39000); k->ph[j].full = R(2); k->ph[j].pause = PCT(30);
            if (k->ph[j].wmax < 50 && k->ph[j].len > 3000) k->ph[j].len = 3000;
            k->ph[j].rehs = PCT(10);
        }
    }
    for (int i = 0; i < nSV; i++) { int a = sim_actor(server_main, (void *)(long)i); sim_actor_daemon(a); }
    sim_actor(client_main, (void *)0); sim_actor(client_main, (void *)1);
    sim_run_actors();
    over = 1;
    for (int i = 0; i < nSV; i++) { tls_ssock_close(&SS[i]); tls_server_destroy(&SV[i]); }
    for (int i = 0; i < nCL; i++) tls_client_destroy(&CL[i]);
    tls_deinit();
    if (!vc_viol_in_case && sim_open_fds()) V("fd-leak", "%d descriptors left open", sim_open_fds());
    if (sim_bad_close) V("bad-close", "a descriptor was closed twice");
    vc_distinct(vc_mix(trace_h, sim_sched_hash));
    if (vc_want_sample()) vc_sample("%d connections, %d servers, %d clients, TLS %s, window %llu", nK, nSV, nCL, tls12 ? "1.2" : "1.3", (unsigned long long)window);
    vc_count("opened", n_open); vc_count("bytes_read", n_bytes); vc_count("bad_servers", n_refs); vc_count("bad_clients", n_refc); vc_count("timeouts", n_to); vc_count("resumed", n_res); vc_count("full_handshakes", n_full);
    vc_count("broken_clients", n_broken); vc_count("partial_writes", n_part); vc_count("would_block", n_again); vc_count("rehandshakes", n_rehs);
    n_open = n_bytes = n_refs = n_refc = n_to = n_res = n_full = n_broken = n_part = n_again = n_rehs = 0;
}
int main(int c, char **v)
{
    static const vc_mode_t m[] = { {"tls", m_tls, "1-10 connections between up to 3 clients and 2 servers, certificates, names, sizes and interference drawn at random; distinct histories"}, {0, 0, 0} };
    dtls_init(); certs_make();
    return vc_main(c, v, m);
}
