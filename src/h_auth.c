/* Peer authentication of CoAP over DTLS: real client, real server and real GnuTLS over the simulated network, every
   kind of good and bad certificate on either side, against an oracle computed from how the certificates were made. */
#include "sim.h"
#include "dtls.h"
#include "pki.h"
#include "vmem.h"
#include <errno.h>
#include <unistd.h>
#include <strings.h>
#include <sys/select.h>
#include <gnutls/gnutls.h>
#include "coap_client.h"
#include "coap_server.h"
#include "coap_log.h"
#define R(n) rng_below(&vc_rng, (n))
#define PCT(n) rng_chance(&vc_rng, (n), 100)
#define V vc_viol
extern int simlog_verbose;
#include "certs.h"
/* ---- the world */
enum { T_COAP, T_NOCERT, T_CERT, T_PLAIN, T_EARLY };            /* a library client; raw: without, with a certificate; no DTLS at all */
typedef struct { int id, kind, cert, tr, crl, name, nx, execs, open, conn, good; saddr_t a; coap_client_t c; double t0, t1; } cl_t;
#define MAXC 6
static cl_t C[MAXC]; static int nC, scert, strust, scrl, over, srv_id, stopped; static saddr_t sa; static coap_server_t srv;
static long n_ok, n_refc, n_refs, n_exec, n_raw, n_x, n_amb; static uint64_t trace_h;
#ifdef COAP_CLIENT_AUTH
#define AUTH 1
#else
#define AUTH 0
#endif
static double rel(void) { return (double)sim_now / SEC - 1000; }
static int client_ok(cl_t *c, double t1)                        /* may this client's requests be executed? */
{
    if (c->kind == T_PLAIN || c->kind == T_EARLY) return 0;
    if (!AUTH) return 1;
    if (c->kind == T_NOCERT) return 0;
    return trusted(S[c->cert].name, strust, scrl, c->t0, t1);
}
static int handle(coap_server_trans_t *t, coap_msg_t *q, coap_msg_t *r)
{
    coap_msg_op_t *op; (void)t;
    for (op = coap_msg_get_first_op(q); op; op = coap_msg_op_get_next(op))
        if (coap_msg_op_get_num(op) == COAP_MSG_URI_QUERY && coap_msg_op_get_len(op) == 2)
        {
            int i = coap_msg_op_get_val(op)[1] - 'A';
            if (i < 0 || i >= nC) break;
            n_exec++; C[i].execs++;
            vc_trace("%.3f app: request of client %d", rel(), i);
            if (client_ok(&C[i], rel()) == 0) V("unauthenticated-request", "the application received a request of client %d (kind %d, certificate %s; server trusts '%s', revocation list '%s')", i, C[i].kind, S[C[i].cert].name, TR[strust], CR[scrl]);
            coap_msg_set_code(r, COAP_MSG_SUCCESS, COAP_MSG_CONTENT);
            return coap_msg_set_payload(r, "fine", 4);
        }
    V("unknown-request", "the application received a request nobody sent");
    return -EINVAL;
}
static int on_send(const saddr_t *from, const saddr_t *to, const void *d, unsigned len)
{
    static uint64_t last; uint64_t at = sim_now + MSEC;
    if (over) return 0;
    if (last > sim_now + SEC) last = 0;
    if (at <= last) at = last + 1000;
    last = at;
    sim_post(from, to, d, len, at);                                /* in order, nothing lost: whatever fails, fails for a reason */
    return 0;
}
static void nap(uint64_t ns) { struct timespec ts = { (time_t)(ns / SEC), (long)(ns % SEC) }; pselect(0, NULL, NULL, NULL, &ts, NULL); }
static unsigned mid_seq;
static unsigned request(uint8_t *b, int id) { uint8_t q[] = { 0x40, 1, (uint8_t)(++mid_seq >> 8), (uint8_t)mid_seq, 0xb1, 'p', 0x42, 'c', (uint8_t)('A' + id) }; memcpy(b, q, sizeof q); return sizeof q; }
static int ask(cl_t *c)
{
    coap_msg_t q, r; char tag[2] = { 'c', (char)('A' + c->id) }; int before = c->execs; ssize_t ret;
    coap_msg_create(&q); coap_msg_create(&r);
    coap_msg_set_type(&q, PCT(70) ? COAP_MSG_CON : COAP_MSG_NON); coap_msg_set_code(&q, COAP_MSG_REQ, COAP_MSG_GET);
    coap_msg_add_op(&q, COAP_MSG_URI_PATH, PCT(50) ? 1 : 3, "sep"); coap_msg_add_op(&q, COAP_MSG_URI_QUERY, 2, tag);
    ret = coap_client_exchange(&c->c, &q, &r);
    n_x++;
    vc_trace("%.3f client %d exchange: %zd", rel(), c->id, ret);
    if (ret == 0 && (c->execs != before + 1 || coap_msg_get_payload_len(&r) != 4)) V("false-success", "client %d's exchange succeeded after %d executions", c->id, c->execs - before);
    coap_msg_destroy(&q); coap_msg_destroy(&r);
    return ret;
}
/* ---- raw clients */
typedef struct { int fd; } raw_t;
static ssize_t raw_push(gnutls_transport_ptr_t p, const void *d, size_t n) { return send(((raw_t *)p)->fd, d, n, 0); }
static ssize_t raw_pull(gnutls_transport_ptr_t p, void *d, size_t n) { return recv(((raw_t *)p)->fd, d, n, 0); }
static int raw_wait(gnutls_transport_ptr_t p, unsigned ms)
{
    raw_t *w = p; fd_set f; struct timespec t = { ms / 1000, (ms % 1000) * 1000000L };
    FD_ZERO(&f); FD_SET(w->fd, &f);
    return pselect(w->fd + 1, &f, NULL, NULL, &t, NULL);
}
extern int fcntl(int, int, ...);
static void raw(cl_t *c)
{
    raw_t w; gnutls_session_t s; gnutls_certificate_credentials_t cred; gnutls_priority_t pr; char k[64], f[64]; uint8_t b[64]; unsigned n; int r = -1, i;
    sim_local_for_connect(&c->a);
    w.fd = socket(sa.ss.ss_family, SOCK_DGRAM, 0);
    connect(w.fd, (struct sockaddr *)&sa.ss, sa.len);
    fcntl(w.fd, 4 /* F_SETFL */, 04000 /* O_NONBLOCK */);
    n_raw++;
    c->t0 = rel();
    if (c->kind == T_PLAIN)
    {
        for (i = 1 + R(4); i--;) { n = request(b, c->id); send(w.fd, b, n, 0); nap(R(2000) * MSEC); }
        close(w.fd); c->t1 = rel();
        return;
    }
    gnutls_certificate_allocate_credentials(&cred);
    if (c->kind == T_CERT) { snprintf(k, sizeof k, "%s.key", S[c->cert].name); snprintf(f, sizeof f, "%s.crt", S[c->cert].name); gnutls_certificate_set_x509_key_file(cred, f, k, GNUTLS_X509_FMT_PEM); }
    gnutls_init(&s, GNUTLS_CLIENT | GNUTLS_DATAGRAM | GNUTLS_NONBLOCK);
    gnutls_priority_init(&pr, PCT(50) ? "NORMAL:+VERS-DTLS1.2" : "NORMAL:-VERS-ALL:+VERS-DTLS1.2:+ECDHE-ECDSA:+DHE-RSA", NULL);
    gnutls_priority_set(s, pr);
    gnutls_credentials_set(s, GNUTLS_CRD_CERTIFICATE, cred);
    gnutls_transport_set_ptr(s, &w); gnutls_transport_set_push_function(s, raw_push); gnutls_transport_set_pull_function(s, raw_pull); gnutls_transport_set_pull_timeout_function(s, raw_wait);
    gnutls_dtls_set_mtu(s, 1200); gnutls_dtls_set_timeouts(s, 1000, 20000);
    for (i = 0; i < 40; i++)
    {
        r = gnutls_handshake(s);
        if (c->kind == T_EARLY && i == c->nx)
        {   /* application data in the clear, as if the handshake were over */
            uint8_t rec[64] = { 23, 254, 253, 0, 0, 0, 0, 0, 0, 0, (uint8_t)(i + 3), 0, 0 }; n = request(b, c->id); rec[12] = n; memcpy(rec + 13, b, n);
            send(w.fd, rec, 13 + n, 0);
            if (PCT(50)) break;
        }
        if (r == 0 || (r < 0 && gnutls_error_is_fatal(r))) break;
        if (raw_wait(&w, 1000) == 0 && i > 12) break;
    }
    c->t1 = rel() + 1; c->conn = r == 0;
    vc_trace("%.3f raw client %d (kind %d): handshake %s", rel(), c->id, c->kind, gnutls_strerror_name(r));
    if (r == 0 && c->kind != T_EARLY)
        for (i = 0; i < 1 + c->nx; i++)
        {
            int got = 0;
            n = request(b, c->id);
            if (gnutls_record_send(s, b, n) < 0) break;
            if (raw_wait(&w, 3000) > 0) got = gnutls_record_recv(s, b, sizeof b);
            vc_trace("%.3f raw client %d: answer of %d bytes", rel(), c->id, got);
            if (got > 0) { n_x++; if (c->execs == 0) V("false-success", "client %d got an answer without execution", c->id); }
        }
    if (PCT(60)) gnutls_bye(s, GNUTLS_SHUT_WR);
    gnutls_deinit(s); gnutls_priority_deinit(pr); gnutls_certificate_free_credentials(cred);
    close(w.fd);
}
static void clients(void *p)
{
    (void)p;
    for (int i = 0; i < nC && !vc_viol_in_case; i++)
    {
        cl_t *c = &C[i]; char k[64], f[64]; int r, sok, cok;
        nap(PCT(50) ? R(3000) * MSEC : R(250) * SEC);
        if (c->kind != T_COAP) { raw(c); nap(10 * SEC); continue; }
        snprintf(k, sizeof k, "%s.key", S[c->cert].name); snprintf(f, sizeof f, "%s.crt", S[c->cert].name);
        sim_local_for_connect(&c->a);
        c->t0 = rel();
        r = coap_client_create(&c->c, sim_addr_str(1), "5683", k, f, TR[c->tr], CR[c->crl], NM[c->name]);
        c->t1 = rel() + 1;
        vc_trace("%.3f client %d (certificate %s, trusts '%s', list '%s', wants '%s') of server %s: %d", rel(), i, S[c->cert].name, TR[c->tr], CR[c->crl], NM[c->name], S[scert].name, r);
        sok = trusted(S[scert].name, c->tr, c->crl, c->t0, c->t1); if (!named(S[scert].name, NM[c->name])) sok = 0;
        cok = client_ok(c, c->t1);
        trace_h = vc_mix(trace_h, vc_mix((scert * 64 + c->cert) * 8 + c->tr, (c->crl * 16 + c->name) * 64 + scrl * 16 + strust * 2 + (r == 0)));
        if (sok < 0 || cok < 0) n_amb++;
        if (r == 0 && sok == 0) V("bad-server-accepted", "the client connected to a server with certificate %s (trusts '%s', revocation list '%s', expects '%s')", S[scert].name, TR[c->tr], CR[c->crl], NM[c->name]);
        if (r && sok == 1 && cok == 1) V("good-peers-refused", "connecting failed (%d): server %s, client %s, client trusts '%s' '%s', server trusts '%s' '%s', name '%s'", r, S[scert].name, S[c->cert].name, TR[c->tr], CR[c->crl], TR[strust], CR[scrl], NM[c->name]);
        if (sok == 0) n_refs++;
        if (r) { nap(10 * SEC); continue; }
        c->open = 1;
        for (int x = 0; x < c->nx; x++)
        {
            int e = ask(c);
            if (e == 0) { n_ok++; if (cok == 0) V("bad-client-served", "the server answered a client with certificate %s (trusts '%s', revocation list '%s')", S[c->cert].name, TR[strust], CR[scrl]); }
            else if (cok == 1 && sok == 1) V("good-client-refused", "the exchange of a client with certificate %s failed with %d (server trusts '%s', list '%s')", S[c->cert].name, e, TR[strust], CR[scrl]);
            if (cok == 0) { n_refc++; break; }
            if (e) break;
            nap(R(1000) * MSEC);
        }
        if (cok != 1 || sok != 1 || PCT(30)) { coap_client_destroy(&c->c); c->open = 0; nap(10 * SEC); }
        else c->good = 1;
    }
    for (int i = 0; i < nC && !vc_viol_in_case; i++)
        if (C[i].open && C[i].good) { int e = ask(&C[i]); if (e) V("session-disturbed", "the session of client %d (certificate %s) does not work any more (%d)", i, S[C[i].cert].name, e); else n_ok++; }
    for (int i = 0; i < nC; i++) if (C[i].open) coap_client_destroy(&C[i].c);
    nap(SEC);
}
static void server_main(void *p) { (void)p; int r = coap_server_run(&srv); V("server-stopped", "coap_server_run returned %d", r); }
static void m_auth(void)
{
    char k[64], f[64]; int good;
    simlog_verbose = vc_verbose;
    sim_reset(rng_u64(&vc_rng)); trace_h = 0; over = 0; stopped = 0;
    memset(C, 0, sizeof C);
    sim_on_send = on_send; sim_on_consume = NULL; sim_fault = NULL; sim_on_idle = NULL; sim_on_select = NULL; sim_spurious = NULL;
    if (coap_mem_all_create(256, 32, 128, 1152, 16, 1200)) { printf("cannot create pools\n"); exit(2); }
    sim_addr(&sa, 1, 5683);
    /* every dimension is usually fine, so that single faults decide */
    good = PCT(40);
    scert = good ? FIRST : FIRST + (int)R(NS - FIRST); strust = PCT(60) ? 1 : (int)R(5); scrl = PCT(40) ? (int)R(4) : PCT(50) ? 1 : 0;
    snprintf(k, sizeof k, "%s.key", S[scert].name); snprintf(f, sizeof f, "%s.crt", S[scert].name);
    if (coap_server_create(&srv, handle, sim_addr_str(1), "5683", k, f, TR[strust], CR[scrl])) { printf("cannot create server\n"); exit(2); }
    coap_server_add_sep_resp_uri_path(&srv, "/sep");
    nC = 1 + R(MAXC);
    for (int i = 0; i < nC; i++)
    {
        cl_t *c = &C[i]; c->id = i; c->nx = 1 + R(3);
        c->kind = PCT(75) ? T_COAP : T_NOCERT + R(4);
        c->cert = PCT(40) ? FIRST : FIRST + (int)R(NS - FIRST);
        c->tr = PCT(70) ? 1 : (int)R(5); c->crl = PCT(40) ? (int)R(4) : PCT(50) ? 1 : 0; c->name = PCT(70) ? 0 : (int)R(NNM);
        sim_addr(&c->a, PCT(50) ? 7 : 10 + i, 40000 + i);
    }
    srv_id = sim_actor(server_main, NULL); sim_actor_daemon(srv_id);
    sim_actor(clients, NULL);
    sim_run_actors();
    over = 1;
    coap_server_destroy(&srv);
    if (sim_open_fds()) V("fd-leak", "%d descriptors left open", sim_open_fds());
    if (sim_bad_close) V("bad-close", "%ld closes of descriptors that were not open", sim_bad_close);
    coap_mem_all_destroy();
    vc_distinct(trace_h);
    if (vc_want_sample()) vc_sample("server certificate %s, %d clients, the first with %s and name '%s'", S[scert].name, nC, S[C[0].cert].name, NM[C[0].name]);
    vc_count("exchanges", n_x); vc_count("accepted", n_ok); vc_count("bad_clients", n_refc); vc_count("bad_servers", n_refs); vc_count("raw_clients", n_raw); vc_count("executions", n_exec); vc_count("undecided_by_clock", n_amb);
    n_x = n_ok = n_refc = n_refs = n_raw = n_exec = n_amb = 0;
}
int main(int c, char **v)
{
    static const vc_mode_t m[] = { {"auth", m_auth, "1-6 clients of every kind against a server, certificates, trust files, revocation lists and names drawn at random; distinct combinations"}, {0, 0, 0} };
    dtls_init(); certs_make();
    return vc_main(c, v, m);
}
