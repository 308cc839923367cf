/* Real CoAP clients against the real CoAP server over a simulated network that loses, delays, duplicates and reorders
   datagrams, in virtual time. The application on the server records every execution; every client records every result; the two
   logs are compared for exactly-once / at-most-once execution and truth of the result. P19. Built with DTLS, the same over encrypted
   sessions, with hostile datagrams injected. P21. */
#include <errno.h>
#include <sys/select.h>
#include "vc.h"
#include "sim.h"
#include "refcoap.h"
#include "conv.h"
#include "vmem.h"
#include "coap_mem.h"
#include "coap_msg.h"
#include "coap_client.h"
#include "coap_server.h"
#ifdef COAP_DTLS_EN
#include "pki.h"
#include "dtls.h"
#endif

#define R(n) ((int)rng_below(&vc_rng, (n)))
#define PCT(n) (rng_below(&vc_rng, 100) < (unsigned)(n))
#define V(key, ...) vc_viol(key, __VA_ARGS__)
#define MAXC 8
#define MAXX 12
#define LARGE 2048
enum { K_PIG, K_SEP, K_NON, K_BGET, K_BPUT, K_BPOST, K_BGETS };
typedef struct
{
    int kind, method, done, ret, cls, det, execs, rx, lib_ok, code; unsigned up, down, b1, b2, sb1, sb2, blen; uint64_t salt;
    uint8_t pay[64]; unsigned plen;                       /* what the application answered */
    uint8_t upl[LARGE]; unsigned upl_n;                   /* what the application received */
} xc_t;
typedef struct
{
    coap_client_t c; int id, nx, cur; saddr_t a; xc_t x[MAXX];
    unsigned mid; int have_mid, drops, rdrops, mute, nhs, gen; uint64_t hs_t; uint64_t fifo, fifo_prev; int dirty;
} cl_t;
static cl_t C[MAXC]; static int nC; static coap_server_t srv; static saddr_t sa; static int srv_id;
static struct { int loss, dup, delay, bounded, hostile, losehs, calm; } net;
static int turn, live, over, finished;
extern int simlog_verbose;
static rmsg_t D; static uint64_t trace_h;
static long n_con, n_conok, n_hostile, n_x, n_ok, n_fail, n_drop, n_dup, n_send, n_exec, n_late, n_blk;
static void fill(uint8_t *p, unsigned n, uint64_t salt) { rng_t g = { vc_mix(salt, 77) }; rng_bytes(&g, p, n); }

/* ---- application on the server */
static xc_t *tag_of(coap_msg_t *m, int *ci, int *xi)
{
    for (coap_msg_op_t *op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op))
        if (coap_msg_op_get_num(op) == COAP_MSG_URI_QUERY && coap_msg_op_get_len(op) == 3 && coap_msg_op_get_val(op)[0] == 't')
        {
            int c = coap_msg_op_get_val(op)[1] - 'A', x = coap_msg_op_get_val(op)[2] - 'A';
            if (c < 0 || c >= nC || x < 0 || x >= C[c].nx) break;
            *ci = c; *xi = x;
            return &C[c].x[x];
        }
    V("corrupt-request", "a request reached the application without the tag its client put in");
    return NULL;
}
static int rx(coap_server_trans_t *t, coap_msg_t *q, coap_msg_t *r)
{
    int ci, xi; xc_t *x = tag_of(q, &ci, &xi);
    uint8_t want[LARGE];
    if (!x) return -EINVAL;
    vc_trace("%.3f app: body of client %d exchange %d complete (%zu bytes)", sim_now / 1e9, ci, xi, (size_t)coap_server_trans_get_body_end(t));
    x->rx++;
    x->upl_n = coap_server_trans_get_body_end(t);
    fill(want, x->up, x->salt);
    if (x->upl_n != x->up || memcmp(coap_server_trans_get_body(t), want, x->up)) V("upload-corrupt", "the application received %u bytes that are not the %u uploaded by client %d exchange %d", x->upl_n, x->up, ci, xi);
    fill((uint8_t *)coap_server_trans_get_body(t), x->down, x->salt + 1);
    coap_server_trans_set_body_end(t, x->down);
    return coap_msg_set_code(r, COAP_MSG_SUCCESS, x->code);
}
static int handle(coap_server_trans_t *t, coap_msg_t *q, coap_msg_t *r)
{
    int ci, xi, ret; xc_t *x = tag_of(q, &ci, &xi);
    static uint8_t body[LARGE];
    if (!x) return -EINVAL;
    n_exec++;
    x->execs++;
    vc_trace("%.3f app: executes client %d exchange %d (time %d)", sim_now / 1e9, ci, xi, x->execs);
    /* a blockwise GET with separate responses that the server gave up is forgotten, its next block looks like a new request */
    if (x->execs > 1 && (x->kind != K_BGETS || net.bounded)) V("executed-twice", "the application executed client %d's exchange %d %d times", ci, xi, x->execs);
    if (x->kind == K_BGET || x->kind == K_BGETS) { fill(body, x->down, x->salt + 1); return coap_server_trans_handle_blockwise(t, q, r, x->sb1, x->sb2, (char *)body, x->down, NULL); }
    if (x->kind == K_BPUT || x->kind == K_BPOST) { memset(body, 0, sizeof body); return coap_server_trans_handle_blockwise(t, q, r, x->sb1, x->sb2, (char *)body, LARGE, rx); }
    {
        uint8_t want[64];
        fill(want, x->up, x->salt);
        if (coap_msg_get_payload_len(q) != x->up || (x->up && memcmp(coap_msg_get_payload(q), want, x->up))) V("request-corrupt", "the request payload of client %d exchange %d arrived changed", ci, xi);
        if ((int)coap_msg_get_code_detail(q) != x->method) V("request-corrupt", "the request method of client %d exchange %d arrived changed", ci, xi);
    }
    x->plen = x->down; fill(x->pay, x->plen, x->salt + 100 + x->execs);
    ret = coap_msg_set_code(r, x->code >> 5, x->code & 31);
    if (ret == 0 && x->plen) ret = coap_msg_set_payload(r, (char *)x->pay, x->plen);
    return ret;
}
/* ---- network */
static void deliver(const saddr_t *from, const saddr_t *to, const void *d, unsigned len, uint64_t at, cl_t *fifo)
{
    if (fifo) { if (at <= fifo->fifo_prev) at = fifo->fifo_prev + 1000; if (at > fifo->fifo) fifo->fifo = at; }
    sim_post(from, to, d, len, at);
}
static uint64_t lag(void)
{
    switch (net.delay)
    {
    case 0: return 1000 + R(1000) * 1000ULL;
    case 1: return 1000 + R(200) * MSEC;
    case 2: return PCT(80) ? 1000 + R(100) * MSEC : (uint64_t)R(2000) * MSEC;
    default: return PCT(60) ? 1000 + R(100) * MSEC : (uint64_t)R(8000) * MSEC;
    }
}
#ifdef COAP_DTLS_EN
/* ---- hostile datagrams */
#define NCAP 64
static struct { saddr_t from, to; unsigned len; cl_t *c; int gen; uint8_t d[1500]; } cap[NCAP]; static int ncap;
static void capture(const saddr_t *from, const saddr_t *to, const void *d, unsigned len, cl_t *c)
{
    int i = ncap < NCAP ? ncap++ : R(NCAP);
    if (len > sizeof cap[i].d) return;
    cap[i].c = c; cap[i].gen = c->gen; cap[i].from = *from; cap[i].to = *to; cap[i].len = len; memcpy(cap[i].d, d, len);
}
static void inject(void *p)
{
    uint8_t b[1600]; unsigned n = 0; saddr_t from = sa, to = sa, alien; int i = R(nC), k; cl_t *fifo = NULL; (void)p;
    if (over || !live || (net.bounded && finished == nC)) return;
    if (net.calm && turn < nC) { sim_at(sim_now + R(2000) * MSEC, inject, NULL); return; }
    sim_addr(&alien, 900 + R(3), 1000 + R(3));
    int down = PCT(30);
    if (down) to = C[i].a; else from = net.hostile > 1 && PCT(40) ? alien : C[i].a;
    switch (k = R(7))
    {
    case 0: n = R(PCT(50) ? 20 : 1200); rng_bytes(&vc_rng, b, n); break;                                             /* garbage */
    case 1: case 2: case 3:                                                                                         /* captured, replayed or changed */
        if (!ncap) return;
        { int j = R(ncap); n = cap[j].len;
          /* the server remembers a client's latest request only: an older one must not arrive after it */
          if (cap[j].d[0] == 23 && sim_addr_eq(&cap[j].to, &sa)) { if (cap[j].gen != cap[j].c->gen) { n = 0; break; } fifo = cap[j].c; }
          memcpy(b, cap[j].d, n); if (k == 3 || PCT(30)) { if (!down && from.len && !sim_addr_eq(&from, &alien)) from = cap[j].from; }
          if (sim_addr_eq(&from, &sa)) { to = cap[j].to; if (sim_addr_eq(&to, &sa)) to = C[i].a; } else to = sa;
          if (k != 1 && n) { int m = 1 + R(3); while (m--) b[R(n)] ^= 1 << R(8); } if (PCT(20)) n = R(n + 1); }
        break;
    case 4: { uint8_t q[] = { 0x40, 1, (uint8_t)R(256), (uint8_t)R(256), 0xb1, 'p', 0x43, 't', 'A', 'A' }; memcpy(b, q, n = sizeof q); q[0] |= R(4) << 4; break; }  /* plaintext CoAP */
    case 5: { uint8_t q[] = { 21, 254, 255, 0, (uint8_t)R(2), 0, 0, 0, 0, 0, (uint8_t)R(8), 0, 2, (uint8_t)(1 + R(2)), (uint8_t)(int[]){ 0, 10, 40, 42, 80, 100 }[R(6)] }; memcpy(b, q, n = sizeof q); break; } /* forged alert */
    case 6: { unsigned m = R(40); uint8_t q[13] = { (uint8_t)(20 + R(4)), 254, (uint8_t)(PCT(50) ? 255 : 253), 0, (uint8_t)R(3), 0, 0, 0, 0, 0, (uint8_t)R(64), 0, (uint8_t)m }; memcpy(b, q, 13); rng_bytes(&vc_rng, b + 13, m); n = 13 + m; break; }
    }
    /* GnuTLS joins a datagram that does not hold one complete record with the next one: a lost datagram, in effect */
    if (net.bounded && n < 13) { rng_bytes(&vc_rng, b + n, 13 - n); n = 13; }
    if (net.bounded) { b[11] = (n - 13) >> 8; b[12] = n - 13; }
    /* a handshake record more than 60 s after the handshake makes GnuTLS end the session with GNUTLS_E_TIMEDOUT */
    if (net.bounded && b[0] == 22) b[0] = 23;
    n_hostile++;
    vc_trace("%.3f hostile kind %d, %u bytes %s%s", sim_now / 1e9, k, n, sim_addr_eq(&from, &alien) ? "from a stranger" : "forged", down ? " to a client" : "");
    deliver(&from, &to, b, n, sim_now + R(50) * MSEC, fifo);
    sim_at(sim_now + (PCT(50) ? R(100) : R(5000)) * MSEC, inject, NULL);
}
#endif
static int on_send(const saddr_t *from, const saddr_t *to, const void *d, unsigned len)
{
    const void *pl = d; unsigned pn = len; int connecting = 0;
    int up = sim_addr_eq(to, &sa), drop = 0, req; cl_t *c = NULL;
    const saddr_t *ca = up ? from : to;
    n_send++;
    for (int i = 0; i < nC; i++) if (sim_addr_eq(&C[i].a, ca)) c = &C[i];
    if (over) return 0;
    if (!c && net.hostile > 1 && !up) return 0;           /* an answer to a stranger */
    if (!c) { V("wrong-address", "a datagram between addresses that do not talk"); return 0; }
#ifdef COAP_DTLS_EN
    pl = dtls_plain; pn = dtls_plain_len; connecting = !pl;
    if (connecting)
    {
        int calm = net.calm && turn < nC, lost = (calm ? c->nhs++ == net.losehs && c->id == turn : PCT(net.loss)) || c->mute;
        vc_trace("%.3f net %s client %d: handshake or alert, %u bytes%s", sim_now / 1e9, up ? "from" : "to", c->id, len, lost ? " (lost)" : "");
        if (lost) { n_drop++; return 0; }
        capture(from, to, d, len, c);
        if (calm) { sim_post(from, to, d, len, c->hs_t = (c->hs_t < sim_now ? sim_now : c->hs_t) + MSEC); return 0; }     /* in order */
        int copies = 1 + PCT(net.dup);
        while (copies--) sim_post(from, to, d, len, sim_now + lag());
        return 0;
    }
    vc_trace("%.3f net plaintext %s", sim_now / 1e9, vc_hex(pl, pn > 40 ? 40 : pn));
#endif
    (void)connecting;
    if (r_decode(&D, pl, pn) != REF_OK) { V("malformed-sent", "a malformed datagram was sent: %s", vc_hex(d, len > 60 ? 60 : len)); return 0; }
    req = up && D.type < 2;
    if (req && (!c->have_mid || c->mid != D.mid)) { c->have_mid = 1; c->mid = D.mid; c->drops = c->rdrops = 0; c->fifo_prev = c->fifo; c->gen++; }
    drop = PCT(net.loss);
    if (net.bounded && drop)
    {
#ifdef COAP_DTLS_EN
        /* unacknowledged, a separate response takes the session with it (DESIGN.md): only its own losses are tried */
        if (up && !req) drop = 0;
#else
        if (up && !req) ;
#endif
        else if (D.type == 1) drop = 0;
        else if (up || D.type != 0) { if (c->drops >= 4) drop = 0; else c->drops++; }
        else { if (c->rdrops >= 3) drop = 0; else c->rdrops++; }
    }
    vc_trace("%.3f net %s client %d: %s%s", sim_now / 1e9, up ? "from" : "to", c->id, vc_hex(d, len > 40 ? 40 : len), drop ? " (lost)" : "");
    trace_h = vc_mix(trace_h, (uint64_t)(up * 8 + D.type * 2 + drop) + c->id * 100);
    if (drop) { n_drop++; return 0; }
#ifdef COAP_DTLS_EN
    capture(from, to, d, len, c);   /* a datagram that was lost could be replayed after the next request, like one that was only delayed */
#endif
    int copies = 1 + (PCT(net.dup) ? 1 + (PCT(30) ? R(3) : 0) : 0);
    n_dup += copies - 1;
    while (copies--) { uint64_t l = lag(); if (l > 2 * SEC) n_late++; deliver(from, to, d, len, sim_now + l, req ? c : NULL); }
    return 0;
}
/* ---- actors */
static void nap(uint64_t ns) { struct timespec ts = { (time_t)(ns / SEC), (long)(ns % SEC) }; pselect(0, NULL, NULL, NULL, &ts, NULL); }
static void client_main(void *p)
{
    cl_t *c = p; coap_msg_t q, r;
#ifdef COAP_DTLS_EN
    int cr;
    if (net.calm) while (turn != c->id) nap(20 * MSEC);      /* the others are quiet while one connects */
    else nap((uint64_t)R(PCT(50) ? 100 : 20000) * MSEC);
    sim_local_for_connect(&c->a);
    n_con++;
    cr = coap_client_create(&c->c, sim_addr_str(1), "5683", "cli.key", "cli.crt", "ca.crt", "", "server.example.com");
    vc_trace("%.3f client %d connected: %d", sim_now / 1e9, c->id, cr);
    if (cr == 0) n_conok++;
    else if (net.bounded) V("cannot-connect", "client %d could not connect (%d) although nothing disturbed it", c->id, cr);
    if (net.calm) { nap(3 * SEC); turn++; while (turn < nC && !vc_viol_in_case) nap(20 * MSEC); }
    if (cr) { live--; finished++; return; }
#endif
    for (c->cur = 0; c->cur < c->nx && !vc_viol_in_case; c->cur++)
    {
        xc_t *x = &c->x[c->cur]; char tag[3] = { 't', (char)('A' + c->id), (char)('A' + c->cur) }; static const char *P[] = { "p", "sep", "n", "bg", "bp", "bq", "bsep" };
        uint8_t *buf = malloc(x->blen ? x->blen : 1), pay[LARGE]; ssize_t ret; int blk = x->kind >= K_BGET;
        nap(PCT(70) ? (uint64_t)R(50) * MSEC : (uint64_t)R(100000) * MSEC);
        coap_msg_create(&q); coap_msg_create(&r);
        coap_msg_set_type(&q, x->kind == K_NON ? COAP_MSG_NON : COAP_MSG_CON);
        coap_msg_set_code(&q, COAP_MSG_REQ, x->method);
        coap_msg_add_op(&q, COAP_MSG_URI_PATH, strlen(P[x->kind]), P[x->kind]);
        coap_msg_add_op(&q, COAP_MSG_URI_QUERY, 3, tag);
        fill(pay, x->up, x->salt);
        vc_trace("%.3f client %d exchange %d kind %d starts (up %u down %u)", sim_now / 1e9, c->id, c->cur, x->kind, x->up, x->down);
        if (blk)
        {
            memset(buf, 0, x->blen); memcpy(buf, pay, x->up);
            ret = coap_client_exchange_blockwise(&c->c, &q, &r, x->b1, x->b2, (char *)buf, x->blen, 0);
        }
        else
        {
            if (x->up) coap_msg_set_payload(&q, (char *)pay, x->up);
            ret = coap_client_exchange(&c->c, &q, &r);
        }
        n_x++;
        x->done = 1; x->ret = ret; x->cls = coap_msg_get_code_class(&r); x->det = coap_msg_get_code_detail(&r);
        vc_trace("%.3f client %d exchange %d returned %zd code %d.%02d", sim_now / 1e9, c->id, c->cur, ret, x->cls, x->det);
        trace_h = vc_mix(trace_h, (uint64_t)(ret < 0) + x->kind * 2);
        if (ret < 0)
        {
            n_fail++;
            if (net.bounded) V("failed-on-good-network", "client %d exchange %d (kind %d) failed with %zd although losses stayed below the limit", c->id, c->cur, x->kind, ret);
            if (blk) c->dirty = 1;
        }
        else if (x->execs == 0 && x->cls == 4 && (x->det == 0 || x->det == 8) && c->dirty && coap_msg_get_payload_len(&r) == 0) { n_ok++; c->dirty = 0; }
        else
        {
            n_ok++;
            if (!blk)
            {
                if (x->execs != 1) V("success-without-execution", "client %d exchange %d reported success (code %d.%02d) after %d executions", c->id, c->cur, x->cls, x->det, x->execs);
                else if (x->cls * 32 + x->det != x->code) V("wrong-result", "client %d exchange %d got code %d.%02d, the application answered %d.%02d", c->id, c->cur, x->cls, x->det, x->code >> 5, x->code & 31);
                else if (coap_msg_get_payload_len(&r) != x->plen || (x->plen && memcmp(coap_msg_get_payload(&r), x->pay, x->plen))) V("wrong-result", "client %d exchange %d got a payload the application did not answer", c->id, c->cur);
            }
            else if (x->cls != 2) { if (!c->dirty && !(x->kind == K_BGETS && x->execs > 1 && !net.bounded)) V("wrong-result", "client %d blockwise exchange %d ended with %d.%02d", c->id, c->cur, x->cls, x->det); c->dirty = 0; }
            else
            {
                n_blk++;
                uint8_t want[LARGE]; fill(want, x->down, x->salt + 1);
                if (x->execs != 1) V("success-without-execution", "client %d blockwise exchange %d reported success after %d executions", c->id, c->cur, x->execs);
                if (x->kind == K_BPUT || x->kind == K_BPOST) { if (x->rx != 1) V("success-without-execution", "client %d upload %d reported success after its body reached the application %d times", c->id, c->cur, x->rx); }
                if ((unsigned)ret != x->down) V("wrong-result", "client %d blockwise exchange %d returned %zd instead of %u bytes", c->id, c->cur, ret, x->down);
                else if (memcmp(buf, want, x->down)) V("wrong-result", "client %d blockwise exchange %d returned a wrong body", c->id, c->cur);
                c->dirty = 0;
            }
        }
        free(buf);
        coap_msg_destroy(&q); coap_msg_destroy(&r);
    }
#ifdef COAP_DTLS_EN
    finished++;
    if (net.bounded) while (finished < nC && !vc_viol_in_case) nap(20 * MSEC);       /* a late datagram of a closed session begins a handshake, which keeps the server busy */
    c->mute = PCT(30);                                          /* dies without a word */
    coap_client_destroy(&c->c);
    live--;
#endif
}
static void server_main(void *p) { (void)p; int r = coap_server_run(&srv); V("server-stopped", "coap_server_run returned %d", r); }

static void world(int bounded, int clean)
{
    static const unsigned sz[] = { 16, 32, 64, 128, 256, 512 };
    simlog_verbose = vc_verbose;
    sim_reset(rng_u64(&vc_rng)); trace_h = 0;
    memset(C, 0, sizeof C); memset(&net, 0, sizeof net);
    net.bounded = bounded; net.loss = clean ? 0 : (int[]){ 5, 20, 40, 60 }[R(4)]; net.dup = (int[]){ 0, 10, 40 }[R(3)]; net.delay = bounded ? R(3) : R(4);
    if (!bounded && !clean && PCT(20)) net.loss = 80;
    sim_on_send = on_send; sim_on_consume = NULL; sim_fault = NULL; sim_on_idle = NULL; sim_on_select = NULL; sim_spurious = NULL;
    if (coap_mem_all_create(512, 32, 256, 1152, 64, LARGE)) { printf("cannot create pools\n"); exit(2); }
    sim_addr(&sa, 1, 5683);
    nC = 1 + (PCT(60) ? R(4) : PCT(30) ? R(8) : 0);
    int share = PCT(50), unbound_upload = 0; (void)unbound_upload;
    turn = over = 0; live = nC;
#ifdef COAP_DTLS_EN
    if (nC == COAP_SERVER_NUM_TRANS) live = nC = COAP_SERVER_NUM_TRANS - 1;     /* a full table would evict a session for a stranger */
    ncap = 0;
    net.losehs = PCT(50) ? -1 : R(11);
    net.calm = bounded || PCT(60);
    net.hostile = PCT(60) ? 1 + (bounded ? 0 : R(2)) : 0; finished = 0;
    if (net.hostile) sim_at(sim_now + R(20) * SEC, inject, NULL);
    if (coap_server_create(&srv, handle, sim_addr_str(1), "5683", "srv.key", "srv.crt", "ca.crt", "")) {
#else
    if (coap_server_create(&srv, handle, sim_addr_str(1), "5683")) {
#endif
 printf("cannot create server\n"); exit(2); }
    coap_server_add_sep_resp_uri_path(&srv, "/sep"); coap_server_add_sep_resp_uri_path(&srv, "/bsep");
    int any = 0;
    for (int i = 0; i < nC; i++)
    {
        cl_t *c = &C[i]; c->id = i; c->nx = 1 + R(PCT(20) ? MAXX : 5);
        sim_addr(&c->a, share ? 7 : 10 + i, 40000 + i);
        sim_local_for_connect(&c->a);
#ifndef COAP_DTLS_EN
        if (coap_client_create(&c->c, sim_addr_str(1), "5683")) { printf("cannot create client\n"); exit(2); }
#endif
        for (int k = 0; k < c->nx; k++)
        {
            xc_t *x = &c->x[k]; x->salt = rng_u64(&vc_rng); any = 1;
            x->kind = PCT(35) ? K_PIG : PCT(40) ? K_SEP : PCT(20) ? K_NON : K_BGET + R(4);
            if (x->kind < K_BGET)
            {
                x->method = 1 + R(4); x->up = PCT(50) ? 0 : R(60); x->down = PCT(20) ? 0 : 1 + R(60);
                x->code = (int[]){ 2 * 32 + 5, 2 * 32 + 4, 2 * 32 + 1, 2 * 32 + 2, 4 * 32 + 4, 5 * 32 + 0 }[R(6)];
            }
            else
            {
                x->b1 = sz[R(6)]; x->b2 = sz[R(6)]; x->sb1 = sz[R(6)]; x->sb2 = sz[R(6)]; x->blen = LARGE;
                x->method = x->kind == K_BPUT ? 3 : x->kind == K_BPOST ? 2 : 1;
                x->up = x->method == 1 ? 0 : 1 + R(PCT(50) ? 200 : 1200); x->down = x->method == 1 ? 1 + R(PCT(50) ? 200 : 1200) : PCT(50) ? 0 : 1 + R(600);
                if (x->method != 1) { x->blen = x->up; if (x->down > x->up) x->down = x->up; }
                x->code = PCT(50) ? COAP_MSG_CHANGED : COAP_MSG_CREATED;
            }
        }
    }
    (void)any;
    srv_id = sim_actor(server_main, NULL); sim_actor_daemon(srv_id);
    for (int i = 0; i < nC; i++) sim_actor(client_main, &C[i]);
    sim_run_actors();
    over = 1;
    for (int i = 0; i < nC; i++) { for (int k = 0; k < C[i].nx; k++) if ((C[i].x[k].execs > 1 && (C[i].x[k].kind != K_BGETS || bounded)) || C[i].x[k].rx > 1) V("executed-twice", "client %d exchange %d: executed %d times, body delivered %d times", i, k, C[i].x[k].execs, C[i].x[k].rx);
#ifndef COAP_DTLS_EN
        coap_client_destroy(&C[i].c);
#endif
    }
    coap_server_destroy(&srv);
    if (sim_open_fds()) V("fd-leak", "%d descriptors left open", sim_open_fds());
    if (sim_bad_close) V("bad-close", "%ld closes of descriptors that were not open", sim_bad_close);
    coap_mem_all_destroy();
    vc_distinct(vc_mix(trace_h, sim_sched_hash));
    if (vc_want_sample()) vc_sample("%d clients, loss %d%%, dup %d%%: %ld exchanges so far, schedule of %ld switches", nC, net.loss, net.dup, n_x, sim_switches);
    vc_count("exchanges", n_x); vc_count("succeeded", n_ok); vc_count("failed", n_fail); vc_count("datagrams", n_send); vc_count("lost", n_drop); vc_count("duplicated", n_dup); vc_count("delayed_long", n_late);
    vc_count("executions", n_exec); vc_count("blockwise_succeeded", n_blk); vc_count("actor_switches", sim_switches);
    if (n_con) { vc_count("connections", n_con); vc_count("connected", n_conok); vc_count("hostile", n_hostile); }
    n_con = n_conok = n_hostile = 0;
    n_x = n_ok = n_fail = n_send = n_drop = n_dup = n_late = n_exec = n_blk = 0;
}
static void m_lossy(void) { world(0, 0); }
static void m_bounded(void) { world(1, 0); }
static void m_dup(void) { world(1, 1); }
int main(int c, char **v)
{
#ifdef COAP_DTLS_EN
    static const pki_spec_t s[] = { { "ca", NULL, 1, -86400, 86400 * 3650L, "ca", {0} }, { "srv", "ca", 0, -86400, 86400 * 365L, "server.example.com", {0} }, { "cli", "ca", 0, -86400, 86400 * 365L, "client.example.com", {0} } };
    dtls_init(); pki_make(s, 3);
#endif
    static const vc_mode_t m[] = {
        {"lossy", m_lossy, "1-8 clients and a server over a network that loses up to 80% and delays, duplicates, reorders; distinct event traces and schedules"},
        {"bounded", m_bounded, "the same with losses per exchange below the retransmission limit: every exchange must succeed; distinct event traces and schedules"},
        {"dup", m_dup, "no losses, duplication and reordering only; distinct event traces and schedules"}, {0, 0, 0}};
    return vc_main(c, v, m);
}
