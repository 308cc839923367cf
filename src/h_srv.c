/* Real CoAP server (no DTLS) on simulated sockets and time; every datagram it consumes and sends, every timer action and
   every application call is judged online against a reference model of the RFC 7252/7959 server behaviour. P07-P14. */
#include <errno.h>
#include "vc.h"
#include "sim.h"
#include "refcoap.h"
#include "conv.h"
#include "vmem.h"
#include "coap_mem.h"
#include "coap_msg.h"
#include "coap_server.h"

#define SRV_HOST 1
#define SRV_PORT 5683
#define MAXC 24
#define MAXD 1152
#define BODYMAX 80000
enum { NO, YES, MAYBE };
enum { K_PIGGY, K_SEP, K_NON };
typedef struct { uint8_t d[1600]; unsigned len; saddr_t to; int failed; uint64_t t; } snd_t;

typedef struct
{
    saddr_t a;
    int tracked; uint64_t last_use;                 /* seconds */
    int have_req, sure;                             /* deduplication state known? */
    unsigned req_mid, req_type; uint8_t req[MAXD]; unsigned req_len;
    uint8_t prev[MAXD]; unsigned prev_len;          /* an older request, for stale re-delivery */
    int resp_kind, resp_known; uint8_t resp[1600]; unsigned resp_len, resp_mid;
    int pend; uint64_t sent_at, T; int nretr;       /* unacknowledged separate response */
    int fresh_n; unsigned fresh[3];                 /* message ids generated by the server for this client */
    int ack_plan;                                   /* after how many retransmissions the client acknowledges (-1: never) */
    uint32_t next_mid;
    /* blockwise: model of the server side */
    int b_active, b_phase, b_method; char b_uri[40]; unsigned b_size1, b_size2; size_t b_next1, b_next2, b_end2;
    int b_code; int b_app;   /* b_app: what the application does at the end */
    /* blockwise: the client's own follower */
    int f_on, f_method; char f_uri[8]; size_t f_uplen, f_upoff, f_got; unsigned f_size1, f_size2; int f_phase;
    unsigned long done_transfers;
    uint8_t b_up[BODYMAX], b_down[BODYMAX], f_body[BODYMAX]; /* last: not cleared */
} cl_t;

static cl_t C[MAXC]; static int nC; static long n_long;
static coap_server_t srv; static saddr_t srv_addr;
static size_t large_len;
static rmsg_t D, X, Y, AR;                          /* datagram, sent, scratch, application's response */
/* current segment */
static struct { int has, hcalls, brx, failed_send, bwas; cl_t *c; uint8_t d[2048]; unsigned len; snd_t s[24]; int ns; int app_ret, app_block, started; char bad[200]; } sg;
static int finished, phase, steps, outstanding, wait_on, faults_on, loose_all, max_c_active;
static rng_t app_rng; static uint64_t trace_h; static uint64_t end_t; static int live_i;
static long n_req, n_dup, n_retr, n_giveup, n_bad, n_block_ok, n_evict, n_segs, n_acks, n_badopt, n_ambig, n_upl, n_faults, n_strict_live, n_blockerr, n_sendfail;
static long oom_at; static int oom_mode;
static uint8_t GB[BODYMAX], body_got[BODYMAX]; static size_t body_len; static size_t GBlen; static unsigned app_s1, app_s2;
/* configuration of the mode */
static struct
{
    int clients, stepmin, stepmax, lng;
    int w_new, w_dup, w_stale, w_ack, w_rst, w_wrongack, w_bad, w_ping, w_respcls, w_badver, w_crit, w_wait, w_garbage, w_block, w_collide;
    int p_sep, p_non, p_err, faults, burst, p_dev, waits_long, spaced, same_host, victims, big, oom;
} cf;

#define R(n) ((int)rng_below(&vc_rng, (n)))
#define PCT(n) (rng_below(&vc_rng, 100) < (unsigned)(n))
extern int simlog_verbose;
static const char *S_PATHS[] = {"/s", "/s/x", "/sep/long-resource-name"};

static cl_t *by_addr(const saddr_t *a) { for (int i = 0; i < nC; i++) if (sim_addr_eq(&C[i].a, a)) return &C[i]; return NULL; }
static int cid(const cl_t *c) { return (int)(c - C); }
static void uri_of(const rmsg_t *m, char *out, size_t n)
{
    size_t k = 0;
    for (unsigned i = 0; i < m->nops; i++)
        if (m->ops[i].num == 11)
        {
            if (k + 1 < n) out[k++] = '/';
            for (unsigned j = 0; j < m->ops[i].len && k + 1 < n; j++) out[k++] = m->ops[i].val[j];
        }
    if (!k) out[k++] = '/';
    out[k] = 0;
}
static int is_sep(const rmsg_t *m) { char u[300]; uri_of(m, u, sizeof u); for (int i = 0; i < 3; i++) if (!strcmp(u, S_PATHS[i])) return 1; return 0; }
static unsigned crit_of(const rmsg_t *m) { for (unsigned i = 0; i < m->nops; i++) if ((m->ops[i].num & 1) && !r_recognised(m->ops[i].num)) return m->ops[i].num; return 0; }
static void unsure(cl_t *c) { if (c->tracked == YES) c->tracked = MAYBE; c->sure = 0; if (c->pend) c->pend = 2; if (c->b_active == YES) c->b_active = MAYBE; }
static void loosen_all(void) { for (int i = 0; i < nC; i++) unsure(&C[i]); }
static void forget(cl_t *c) { c->tracked = NO; c->have_req = 0; c->sure = 1; c->pend = 0; c->b_active = NO; }

/* ---------------------------------------------------------------- application */
static int app_fill(coap_msg_t *resp)
{
    static const unsigned codes[][2] = {{2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 5}, {4, 0}, {4, 4}, {4, 5}, {5, 0}, {5, 3}};
    int k = rng_below(&app_rng, 10), n = rng_below(&app_rng, 4);
    r_init(&AR);
    AR.cls = codes[k][0]; AR.det = codes[k][1];
    if (coap_msg_set_code(resp, AR.cls, AR.det) < 0) return -1;
    for (int i = 0; i < n; i++)
    {
        static const unsigned nums[] = {4, 8, 12, 14, 20, 28, 60, 6, 2048};
        unsigned num = nums[rng_below(&app_rng, 9)], len = rng_below(&app_rng, 16); uint8_t v[16];
        rng_bytes(&app_rng, v, len);
        int r = coap_msg_add_op(resp, num, len, (char *)v);
        if (r < 0) return r;
        r_add(&AR, num, v, len);
    }
    unsigned pl = rng_chance(&app_rng, 1, 4) ? 0 : 1 + rng_below(&app_rng, rng_chance(&app_rng, 1, 8) ? 900 : 40);
    if (pl)
    {
        uint8_t p[1000]; rng_bytes(&app_rng, p, pl);
        int r = coap_msg_set_payload(resp, (char *)p, pl);
        if (r < 0) return r;
        AR.payload = r_store(&AR, p, pl); AR.plen = pl;
    }
    return 0;
}
static int app_block_rx(coap_server_trans_t *trans, coap_msg_t *req, coap_msg_t *resp)
{
    cl_t *c = sg.c; (void)req;
    sg.brx++;
    n_upl++;
    if (!c || !sg.has) { vc_viol("app-unsolicited", "block receive callback without a datagram"); return -1; }
    body_len = coap_server_trans_get_body_end(trans);
    if (body_len > large_len) { snprintf(sg.bad, sizeof sg.bad, "the application was told of a body of %zu bytes in a buffer of %zu", body_len, large_len); return -1; }
    memcpy(body_got, coap_server_trans_get_body(trans), body_len);
    switch (rng_below(&app_rng, 12))
    {
    case 0: sg.app_ret = -1; return -1;
    case 1: sg.app_ret = 1; sg.app_block = 0; r_init(&AR); AR.cls = 4; AR.det = 3; return coap_msg_set_code(resp, 4, 3);
    case 2: case 3: case 4:
        sg.app_block = 1; r_init(&AR); AR.cls = 2; AR.det = 4; c->b_end2 = 0;
        coap_server_trans_set_body_end(trans, 0);
        return coap_msg_set_code(resp, 2, 4);
    }
    size_t n = 1 + rng_below(&app_rng, large_len);
    if (rng_chance(&app_rng, 1, 2)) n = 1 + rng_below(&app_rng, large_len < 200 ? large_len : 200);
    if (rng_chance(&app_rng, 1, 8)) n = large_len;
    rng_bytes(&app_rng, c->b_down, n);
    memcpy(coap_server_trans_get_body(trans), c->b_down, n);
    coap_server_trans_set_body_end(trans, n);
    c->b_end2 = n; sg.app_block = 2; r_init(&AR); AR.cls = 2; AR.det = rng_chance(&app_rng, 1, 2) ? 4 : 1;
    return coap_msg_set_code(resp, 2, AR.det);
}
static int app(coap_server_trans_t *trans, coap_msg_t *req, coap_msg_t *resp)
{
    char u[300]; const char *d;
    sg.hcalls++;
    if (!sg.has || !sg.c) { vc_viol("app-unsolicited", "application called without a datagram"); return -1; }
    if (sg.hcalls == 1 && (d = msg_differs(req, &D))) snprintf(sg.bad, sizeof sg.bad, "the application was given a request with a different %s", d);
    uri_of(&D, u, sizeof u);
    sg.app_ret = 0; sg.app_block = 0;
    if (!strcmp(u, "/e")) { sg.app_ret = -1; return rng_chance(&app_rng, 1, 2) ? -1 : -ENOENT; }
    if (!strcmp(u, "/b") || !strcmp(u, "/b/s"))
    {
        cl_t *c = sg.c;
        app_s1 = 16u << rng_below(&app_rng, 7); app_s2 = 16u << rng_below(&app_rng, 7);
        if (cf.lng == 1) { app_s1 = 256u << rng_below(&app_rng, 3); app_s2 = 256u << rng_below(&app_rng, 3); }
        if (rng_chance(&app_rng, 1, 3)) app_s1 = app_s2 = 64;
        GBlen = rng_below(&app_rng, large_len + 1);
        switch (rng_below(&app_rng, 6)) { case 0: GBlen = app_s2 * (1 + rng_below(&app_rng, 4)); break; case 1: GBlen = rng_below(&app_rng, 70); break; case 2: GBlen = large_len; }
        if (cf.lng) GBlen = large_len - rng_below(&app_rng, 300);
        if (GBlen > large_len) GBlen = large_len;
        if (GBlen == 0) GBlen = 1;
        if (GBlen / app_s2 > 60) app_s2 = 256;
        rng_bytes(&app_rng, GB, GBlen);
        sg.started = 1;
        /* the model of the transfer starts now */
        c->b_active = YES; c->b_method = D.det; snprintf(c->b_uri, sizeof c->b_uri, "%s", u);
        c->b_size1 = app_s1; c->b_size2 = app_s2; c->b_next1 = c->b_next2 = 0; c->b_code = 5;
        c->b_phase = D.det == 1 ? 2 : 1;
        if (D.det == 1) { memcpy(c->b_down, GB, GBlen); c->b_end2 = GBlen; }
        if (D.det == 0 || D.det > 3) { c->b_active = NO; sg.started = 0; sg.app_block = 4; }
        int r = coap_server_trans_handle_blockwise(trans, req, resp, app_s1, app_s2, (char *)GB, GBlen, app_block_rx);
        if (r < 0) sg.app_ret = -1;
        return r;
    }
    int r = app_fill(resp);
    if (r < 0) sg.app_ret = -1;
    return r;
}
/* ---------------------------------------------------------------- model */
static const char *hx(const void *p, unsigned n) { return vc_hex(p, n > 120 ? 120 : n); }
#define V(key, ...) do { vc_viol(key, __VA_ARGS__); sg.ns = 0; } while (0)
static int ids_wrapped; static unsigned last_id;   /* once the counter has wrapped to a random value, coincidences are possible */
static void mark_fresh(cl_t *c, unsigned mid)
{
    int n = c->fresh_n < 3 ? c->fresh_n : 3;
    if (last_id < 65536 && (mid < last_id || last_id == 65535)) ids_wrapped = 1;
    last_id = mid;
    for (int i = 0; i < n; i++) if (c->fresh[i] == mid && !ids_wrapped) V("message-id-reused", "client %d: server reuses message id %u it generated shortly before", cid(c), mid);
    c->fresh[c->fresh_n % 3] = mid; c->fresh_n++;
}
static void retrans(snd_t *s)
{
    cl_t *c = by_addr(&s->to);
    if (!c || !c->pend || c->resp_len != s->len || memcmp(c->resp, s->d, s->len))
    {
        V("spontaneous-send", "at %.3f s the server sent, unprompted, %u bytes to client %d: %s", s->t / 1e9, s->len, c ? cid(c) : -1, hx(s->d, s->len));
        return;
    }
    uint64_t dt = s->t - c->sent_at, tol = 20 * MSEC;
    n_retr++;
    if (c->nretr >= 4) { V("retransmitted-too-often", "client %d: %d retransmissions of %s", cid(c), c->nretr + 1, hx(s->d, s->len)); return; }
    if (c->nretr == 0)
    {
        if (dt < 2 * SEC - tol || dt > 3 * SEC + tol) V("retransmission-time", "client %d: first retransmission after %.3f s", cid(c), dt / 1e9);
        c->T = dt;
    }
    else
    {
        uint64_t want = c->T << c->nretr;
        if (dt + tol < want || dt > want + tol) V("retransmission-time", "client %d: retransmission %d after %.3f s, expected %.3f s", cid(c), c->nretr + 1, dt / 1e9, want / 1e9);
    }
    c->nretr++; c->sent_at = s->t; c->last_use = sim_now / SEC;
    if (s->failed) { c->pend = 2; unsure(c); }
}
/* due retransmissions and give-ups, called when the server is idle at sim_now */
static void check_due(void)
{
    for (int i = 0; i < nC; i++)
    {
        cl_t *c = &C[i];
        if (!c->pend) continue;
        uint64_t dt = sim_now - c->sent_at, lim = c->nretr == 0 ? 3 * SEC : c->T << c->nretr;
        if (c->nretr >= 4) { if (dt + 20 * MSEC >= lim) { unsure(c); if (dt > lim + 20 * MSEC) { if (c->pend == 1 || c->pend == 2) { n_giveup++; } c->pend = 0; } } }
        else if (dt > lim + 20 * MSEC)
        {
            if (c->pend == 1) V("retransmission-missing", "client %d: response %s not retransmitted (%d so far, %.3f s after the last)", i, hx(c->resp, c->resp_len), c->nretr, dt / 1e9);
            c->pend = 0;
        }
    }
}
/* one expected response of the server, found at sends[*k]; returns 1 if present; decoded into X */
static int take(int *k, cl_t *c, const char *what)
{
    if (*k >= sg.ns) { V("reply-missing", "client %d: no %s to %s", cid(c), what, hx(sg.d, sg.len)); return 0; }
    snd_t *s = &sg.s[(*k)++];
    if (r_decode(&X, s->d, s->len) != REF_OK) { V("reply-malformed", "client %d: %s is malformed: %s", cid(c), what, hx(s->d, s->len)); return 0; }
    if (s->failed) return -1;
    return 1;
}
static int is_empty(const rmsg_t *m, unsigned type, unsigned mid) { return m->type == type && m->mid == mid && m->cls == 0 && m->det == 0 && !m->tkl && !m->nops && !m->plen; }
/* does X (a response) have this block option? */
static int has_block(unsigned opt, unsigned num, int more, unsigned size)
{
    rop_t *o = r_find(&X, opt, 0); unsigned n, m, s;
    if (!o || r_find(&X, opt, 1)) return 0;
    if (r_block_dec(o->val, o->len, &n, &m, &s)) return 0;
    return n == num && s == size && (more < 0 || (int)m == more);
}
/* download part: X must carry the next piece of c->b_down; returns 0 or a complaint */
static const char *down_block(cl_t *c, int want_code)
{
    unsigned n, m, s; rop_t *o = r_find(&X, 23, 0); static char msg[200];
    if (X.cls != 2) { snprintf(msg, sizeof msg, "code %u.%02u instead of a block", X.cls, X.det); return msg; }
    if (!o || r_block_dec(o->val, o->len, &n, &m, &s)) return "no valid block2 option";
    if (s != c->b_size2) return "wrong block2 size";
    if ((size_t)n * s != c->b_next2) return "wrong block2 number";
    size_t left = c->b_end2 - c->b_next2;
    if (m ? (X.plen != s || left < s) : X.plen != left || X.plen > s) { snprintf(msg, sizeof msg, "block of %zu bytes (more %u, size %u) where %zu are left", X.plen, m, s, left); return msg; }
    if (X.plen && memcmp(X.payload, c->b_down + c->b_next2, X.plen)) return "wrong block contents";
    if (!m && X.det != (unsigned)want_code) { snprintf(msg, sizeof msg, "final code 2.%02u instead of 2.%02u", X.det, want_code); return msg; }
    if (m && X.det != 31 && X.det != (unsigned)want_code) return "wrong code of an intermediate block";
    c->b_next2 += X.plen;
    n_block_ok++;
    if (!m) { c->b_active = NO; c->done_transfers++; }
    return NULL;
}
/* judge the response X to a request D while a transfer is (now) active. returns complaint or NULL */
static const char *block_step(cl_t *c)
{
    unsigned n1 = 0, m1 = 0, s1 = 0, n2 = 0, m2 = 0, s2 = 0; rop_t *o1 = r_find(&D, 27, 0), *o2 = r_find(&D, 23, 0); char u[300]; static char msg[240];
    int want_err = 0;
    if (o1 && r_block_dec(o1->val, o1->len, &n1, &m1, &s1)) want_err = 400;
    else if (o1 && s1 < c->b_size1) c->b_size1 = s1;
    if (!want_err)
    {
        if (o2 && r_block_dec(o2->val, o2->len, &n2, &m2, &s2)) want_err = 400;
        else if (o2 && s2 < c->b_size2) c->b_size2 = s2;
    }
    uri_of(&D, u, sizeof u);
    if (!want_err && (D.det != (unsigned)c->b_method || strcmp(u, c->b_uri))) want_err = 400;
    if (!want_err && c->b_phase == 2 && (size_t)n2 * c->b_size2 != c->b_next2) want_err = 400;
    if (!want_err && c->b_phase == 1)
    {
        if ((size_t)n1 * c->b_size1 != c->b_next1) want_err = 408;
        else if (!D.plen) want_err = 400;
        else if (c->b_next1 + D.plen > large_len) want_err = 413;
    }
    if (want_err)
    {
        c->b_active = NO; n_blockerr++;
        if (sg.brx) return "the application got a body from a bad block";
        if (X.cls * 100 + X.det != (unsigned)want_err) { snprintf(msg, sizeof msg, "%u.%02u instead of %d.%02d for a bad block", X.cls, X.det, want_err / 100, want_err % 100); return msg; }
        return NULL;
    }
    if (c->b_phase == 2)
    {
        if (sg.brx) return "unexpected block receive callback";
        return down_block(c, c->b_method == 1 ? 5 : c->b_code);
    }
    memcpy(c->b_up + c->b_next1, D.payload, D.plen);
    size_t start = c->b_next1;
    c->b_next1 += D.plen;
    if (m1)
    {
        if (sg.brx) return "the application was given a body before the final block";
        if (X.cls != 2 || X.det != 31) { snprintf(msg, sizeof msg, "%u.%02u instead of 2.31 for an accepted block", X.cls, X.det); return msg; }
        if (!has_block(27, start / c->b_size1, 1, c->b_size1)) return "wrong block1 option in a continue response";
        if (X.plen) return "payload in a continue response";
        return NULL;
    }
    if (sg.brx != 1) { snprintf(msg, sizeof msg, "the application got the body %d times after the final block", sg.brx); return msg; }
    if (body_len != c->b_next1) { snprintf(msg, sizeof msg, "the application got %zu bytes of body instead of %zu", body_len, c->b_next1); return msg; }
    if (memcmp(body_got, c->b_up, body_len)) return "the application got a wrong body";
    if (sg.app_block == 0) { c->b_active = NO; if (X.cls != AR.cls || X.det != AR.det) return "the application's error code was not returned"; return NULL; }
    if (!has_block(27, start / c->b_size1, 0, c->b_size1)) return "wrong block1 option in the final response";
    if (sg.app_block == 1)
    {
        c->b_active = NO; c->done_transfers++;
        if (X.cls != AR.cls || X.det != AR.det || X.plen) return "wrong response to a completed upload";
        return NULL;
    }
    c->b_phase = 2; c->b_next2 = 0; c->b_code = AR.det;
    if (o2 && n2 != 0) { c->b_active = NO; if (X.cls != 4) return "no error for a bad first block2 number"; return NULL; }
    return down_block(c, c->b_code);
}
static void judge_new(cl_t *c, int loose)
{
    int sep = D.type == 0 && is_sep(&D), k = 0, r; unsigned bad = crit_of(&D);
    int was = sg.bwas;
    n_req++;
    memcpy(c->prev, c->req, c->req_len); c->prev_len = c->req_len;
    c->pend = 0; c->have_req = 1; c->req_mid = D.mid; c->req_type = D.type; memcpy(c->req, sg.d, sg.len); c->req_len = sg.len;
    c->sure = 1; c->tracked = YES; c->resp_known = 0; c->last_use = sim_now / SEC;
    int blk = sg.started && sg.hcalls;         /* a transfer was started by this request */
    int inb = was == YES && !sg.hcalls && !bad;
    if (sep && sg.ns == 1 && sg.s[0].failed && !sg.hcalls && !sg.brx) { unsure(c); return; }     /* the acknowledgement could not be sent: dropped */
    if (bad)
    {
        n_badopt++;
        if (sg.hcalls || sg.brx) { V("critical-option-processed", "client %d: request with unrecognised critical option %u reached the application: %s", cid(c), bad, hx(sg.d, sg.len)); return; }
    }
    else if (was == YES ) { if (sg.hcalls && !loose) { V("app-called-in-transfer", "client %d: request %s inside a blockwise transfer reached the application handler", cid(c), hx(sg.d, sg.len)); return; } }
    else if (was == NO && sg.hcalls != 1)
    {
        V(sg.hcalls ? "executed-twice" : "not-executed", "client %d: the application was called %d times for the new request %s", cid(c), sg.hcalls, hx(sg.d, sg.len)); return;
    }
    if (sg.hcalls > 1 || sg.brx > 1) { V("executed-twice", "client %d: the application was called %d times for %s", cid(c), sg.hcalls + sg.brx, hx(sg.d, sg.len)); return; }
    if (sg.bad[0]) { V("app-input", "client %d: %s; datagram %s", cid(c), sg.bad, hx(sg.d, sg.len)); return; }
    if (sep)
    {
        r = take(&k, c, "acknowledgement");
        if (!r) return;
        if (!is_empty(&X, 2, D.mid)) { V("separate-ack", "client %d: expected an empty acknowledgement of %u, got %s", cid(c), D.mid, hx(sg.s[k - 1].d, sg.s[k - 1].len)); return; }
        if (r < 0) { unsure(c); goto nomore; }
    }
    if ((sg.hcalls || sg.brx) && sg.app_ret == -1) { unsure(c); c->b_active = c->b_active == NO ? NO : MAYBE; goto nomore; }   /* application error: dropped */
    if (was == YES && !bad && !blk && k >= sg.ns && sg.failed_send) { unsure(c); return; }
    r = take(&k, c, "response");
    if (!r) return;
    {
        snd_t *s = &sg.s[k - 1]; const char *e = NULL;
        unsigned wtype = D.type == 1 ? 1 : sep ? 0 : 2;
        if (X.type != wtype) { V("response-type", "client %d: response of type %u to %s: %s", cid(c), X.type, hx(sg.d, sg.len), hx(s->d, s->len)); return; }
        if (wtype == 2 && X.mid != D.mid) { V("response-mid", "client %d: piggybacked response to %u has message id %u", cid(c), D.mid, X.mid); return; }
        if (X.tkl != D.tkl || memcmp(X.tok, D.tok, D.tkl)) { V("response-token", "client %d: response %s does not carry the token of %s", cid(c), hx(s->d, s->len), hx(sg.d, sg.len)); return; }
        if (wtype != 2) mark_fresh(c, X.mid);
        if (bad) { if (X.cls != 4 || X.det != 2) e = "not a 4.02"; }
        else if (blk || inb) { if (loose && was == MAYBE) c->b_active = MAYBE; else e = block_step(c); }
        else if (sg.hcalls && sg.app_block == 4) { if (X.cls != 5 || X.det != 1) e = "not a 5.01"; }
        else if (sg.hcalls) { if (!r_same_content(&X, &AR)) e = "not what the application produced"; else c->b_active = NO; }
        else if (was == MAYBE) { if (X.cls != 2) c->b_active = NO; }
        if (e) { V(blk || inb ? "blockwise-step" : "response-content", "client %d: response %s to %s: %s", cid(c), hx(s->d, s->len), hx(sg.d, sg.len), e); return; }
        if (was == MAYBE && sg.hcalls && !sg.started) c->b_active = NO;
        if (r < 0) { unsure(c); goto nomore; }
        memcpy(c->resp, s->d, s->len); c->resp_len = s->len; c->resp_known = 1; c->resp_mid = X.mid; c->resp_kind = wtype == 2 ? K_PIGGY : wtype == 0 ? K_SEP : K_NON;
        if (wtype == 0) { c->pend = 1; c->sent_at = s->t; c->nretr = 0; c->T = 0; }
    }
nomore:
    if (k < sg.ns) V("extra-message", "client %d: the server sent %d messages too many for %s, first %s", cid(c), sg.ns - k, hx(sg.d, sg.len), hx(sg.s[k].d, sg.s[k].len));
}
static void judge_dup(cl_t *c)
{
    int k = 0, r;
    n_dup++;
    if (sg.hcalls || sg.brx) { V("duplicate-executed", "client %d: the duplicate of request %u reached the application: %s", cid(c), D.mid, hx(sg.d, sg.len)); return; }
    c->last_use = sim_now / SEC;
    if (D.type == 0)
    {
        r = take(&k, c, "reply to the duplicate");
        if (!r) return;
        if (is_sep(&D)) { if (!is_empty(&X, 2, D.mid)) { V("duplicate-ack", "client %d: duplicate of a separate request %u answered with %s", cid(c), D.mid, hx(sg.s[k - 1].d, sg.s[k - 1].len)); return; } }
        else if (c->resp_known && (sg.s[k - 1].len != c->resp_len || memcmp(sg.s[k - 1].d, c->resp, c->resp_len)))
        {
            V("duplicate-replay", "client %d: duplicate %u answered with %s instead of %s", cid(c), D.mid, hx(sg.s[k - 1].d, sg.s[k - 1].len), hx(c->resp, c->resp_len)); return;
        }
        if (r < 0) unsure(c);
    }
    if (k < sg.ns) V("extra-message", "client %d: %d messages too many for the duplicate %s", cid(c), sg.ns - k, hx(sg.d, sg.len));
}
static void admit(cl_t *c)
{
    /* a client that is possibly new takes a slot: somebody may have to go */
    if (c->tracked == YES) return;
    int d = 0, m = 0; uint64_t thr = UINT64_MAX;
    for (int i = 0; i < nC; i++)
    {
        if (&C[i] == c) continue;
        if (C[i].tracked == YES) { d++; if (C[i].last_use < thr) thr = C[i].last_use; }
        else if (C[i].tracked == MAYBE) m++;
    }
    if (d + m >= COAP_SERVER_NUM_TRANS)
    {
        int n = 0; cl_t *w = NULL;
        for (int i = 0; i < nC; i++) if (&C[i] != c && C[i].tracked == YES && C[i].last_use <= thr) { n++; w = &C[i]; }
        if (n == 1 && m == 0 && d == COAP_SERVER_NUM_TRANS && c->tracked == NO) { forget(w); n_evict++; }
        else for (int i = 0; i < nC; i++) if (&C[i] != c && C[i].tracked == YES && C[i].last_use <= thr) unsure(&C[i]);
    }
    if (c->tracked == NO) { c->have_req = 0; c->sure = 1; c->pend = 0; c->b_active = NO; }
    c->last_use = sim_now / SEC;
}
/* uncertain history: remember a confirmable response that may be retransmitted */
static void note_con(cl_t *c)
{
    for (int i = 0; i < sg.ns; i++)
        if (r_decode(&X, sg.s[i].d, sg.s[i].len) == REF_OK && X.type == 0)
        {
            if (c->resp_len == sg.s[i].len && !memcmp(c->resp, sg.s[i].d, sg.s[i].len)) { if (!sg.hcalls && !sg.brx) continue; }
            c->pend = 2; memcpy(c->resp, sg.s[i].d, sg.s[i].len); c->resp_len = sg.s[i].len; c->sent_at = sg.s[i].t; c->nretr = 0; c->T = 0; c->resp_mid = X.mid; c->resp_known = 1;
        }
}
static void judge(void)
{
    cl_t *c = sg.c;
    n_segs++;
    if (!sg.has)
    {
        if (sg.hcalls || sg.brx) V("app-unsolicited", "the application was called without a datagram");
        for (int i = 0; i < sg.ns; i++) retrans(&sg.s[i]);
        return;
    }
    for (int i = 0; i < sg.ns; i++)
        if (!sim_addr_eq(&sg.s[i].to, &c->a))
        {
            cl_t *o = by_addr(&sg.s[i].to);
            V("wrong-destination", "in reply to client %d the server sent to %s%d: %s", cid(c), o ? "client " : "unknown address ", o ? cid(o) : -1, hx(sg.s[i].d, sg.s[i].len)); return;
        }
    int r = r_decode(&D, sg.d, sg.len);
    vc_trace("%.3f client %d -> %s | %d sends, %d app", sim_now / 1e9, cid(c), hx(sg.d, sg.len), sg.ns, sg.hcalls);
    for (int i = 0; i < sg.ns; i++) vc_trace("          <- %s%s", hx(sg.s[i].d, sg.s[i].len), sg.s[i].failed ? " (send failed)" : "");
    trace_h = vc_mix(trace_h, (uint64_t)r * 4096 + cid(c) * 64 + sg.ns * 4 + sg.hcalls + (r == REF_OK ? D.type * 16 : 0));
    if (oom_mode)
    {   /* allocation failures: only the safety rules apply; clients are re-synchronised afterwards */
        unsure(c); c->pend = c->pend ? 2 : 0;
        if (sg.hcalls > 1 || sg.brx > 1) V("executed-twice", "the application was called more than once for one datagram");
        note_con(c);
        c->b_active = c->tracked = MAYBE; c->last_use = sim_now / SEC;
        if (r == REF_OK && D.type < 2) { c->have_req = 1; c->req_mid = D.mid; c->req_type = D.type; memcpy(c->req, sg.d, sg.len); c->req_len = sg.len; }
        return;
    }
    if (c->have_req && r == REF_OK && D.type < 2 && D.mid == c->req_mid && (sg.len != c->req_len || memcmp(sg.d, c->req, sg.len)))
    {   /* message id collision between different messages: not judged beyond memory safety and destination */
        n_ambig++; unsure(c); c->b_active = MAYBE; c->tracked = MAYBE; if (sg.hcalls) c->pend = 2;
        note_con(c);
        return;
    }
    if (r != REF_OK)
    {
        n_bad++;
        int rst = r == REF_BAD && sg.len >= 4 && ((sg.d[0] >> 4) & 3) == 0;
        unsigned mid = sg.len >= 4 ? sg.d[2] * 256u + sg.d[3] : 0;
        if (sg.hcalls || sg.brx) { V("malformed-executed", "malformed datagram reached the application: %s", hx(sg.d, sg.len)); return; }
        if (rst) { int k = 0, t = take(&k, c, "reset"); if (!t) return; if (!is_empty(&X, 3, mid)) { V("malformed-reply", "malformed confirmable %s answered with %s", hx(sg.d, sg.len), hx(sg.s[0].d, sg.s[0].len)); return; } }
        if (sg.ns > (rst ? 1 : 0)) { V("malformed-reply", "%d replies to malformed or foreign datagram %s, first %s", sg.ns, hx(sg.d, sg.len), hx(sg.s[0].d, sg.s[0].len)); return; }
        c->tracked = MAYBE; unsure(c);
        return;
    }
    if (D.type == 2 || D.type == 3)
    {
        n_acks++;
        if (sg.hcalls || sg.brx) { V("ack-executed", "an acknowledgement or reset reached the application: %s", hx(sg.d, sg.len)); return; }
        if (sg.ns) { V("ack-answered", "an acknowledgement or reset was answered: %s with %s", hx(sg.d, sg.len), hx(sg.s[0].d, sg.s[0].len)); return; }
        if (c->have_req && c->resp_known && D.mid == c->resp_mid && c->tracked == YES) { c->pend = 0; c->last_use = sim_now / SEC; }
        else
        {
            if (c->pend && D.mid == c->resp_mid) { if (c->pend == 1 || !c->sure) c->pend = 0; }
            c->tracked = YES; c->last_use = sim_now / SEC;      /* not ours to match: changes nothing */
        }
        return;
    }
    if (D.cls != 0 || D.det == 0)
    {
        n_bad++;
        if (sg.hcalls || sg.brx) { V("nonrequest-executed", "a message that is not a request reached the application: %s", hx(sg.d, sg.len)); return; }
        if (D.type == 0) { int k = 0, t = take(&k, c, "reset"); if (!t) return; if (!is_empty(&X, 3, D.mid)) { V("nonrequest-reply", "confirmable non-request %s answered with %s", hx(sg.d, sg.len), hx(sg.s[0].d, sg.s[0].len)); return; } }
        if (sg.ns > (D.type == 0 ? 1 : 0)) { V("nonrequest-reply", "%d replies to non-request %s", sg.ns, hx(sg.d, sg.len)); return; }
        c->tracked = YES; c->last_use = sim_now / SEC;
        return;
    }
    /* a request */
    if (c->have_req && D.mid == c->req_mid)
    {
        if (c->sure) { judge_dup(c); return; }
        if (!sg.hcalls && !sg.brx && !crit_of(&D) && c->b_active != MAYBE) { judge_dup(c); return; }
        if (c->b_active == MAYBE || crit_of(&D))
        {   /* cannot tell a replay from a block error: accept one well-formed reply */
            unsure(c); c->tracked = MAYBE; c->b_active = MAYBE; if (c->pend) c->pend = 2;
            note_con(c);
            n_ambig++;
            return;
        }
        judge_new(c, 1);
        return;
    }
    judge_new(c, !c->sure);
}
static void seg_end(void)
{
    if (sg.has || sg.ns || sg.hcalls) judge();
    memset(&sg.has, 0, offsetof(__typeof__(sg), d)); sg.ns = 0; sg.app_ret = sg.app_block = sg.started = 0; sg.bad[0] = 0; sg.has = 0; sg.c = NULL; sg.hcalls = sg.brx = sg.failed_send = 0;
    if (vc_viol_in_case) sim_stop(3);
}
/* ---------------------------------------------------------------- hooks */
static int on_send(const saddr_t *from, const saddr_t *to, const void *d, unsigned len)
{
    int fail = faults_on && rng_chance(&vc_rng, 1, 6);
    if (!sim_addr_eq(from, &srv_addr)) vc_viol("wrong-source", "the server sent from another socket");
    if (sg.ns < 24 && len <= sizeof sg.s[0].d) { snd_t *s = &sg.s[sg.ns++]; memcpy(s->d, d, len); s->len = len; s->to = *to; s->t = sim_now; s->failed = fail; }
    else vc_viol("too-many-sends", "the server sent more than 24 messages at once or an oversized one (%u bytes)", len);
    if (fail) { n_sendfail++; sg.failed_send = 1; static const int es[] = {EPERM, ENOBUFS, EAGAIN, ENETUNREACH, ECONNREFUSED, EHOSTUNREACH}; return es[R(6)]; }
    return 0;
}
static void on_consume(const pkt_t *p, unsigned got)
{
    seg_end();
    outstanding--;
    sg.has = 1; sg.c = by_addr(&p->from); sg.len = got; memcpy(sg.d, p->d, got);
    if (got < p->len && p->len <= MAXD) { vc_viol("truncated-read", "the server read only %u of %u bytes", got, p->len); }
    r_decode(&D, sg.d, sg.len);
    admit(sg.c);
    sg.bwas = sg.c->b_active;
}
static void on_select(void) { seg_end(); }
static int on_fault(const char *call)
{
    if (!faults_on) return 0;
    if (!strcmp(call, "recv")) { if (!rng_chance(&vc_rng, 1, 12)) return 0; }
    else if (!strcmp(call, "timerfd_create")) { if (!rng_chance(&vc_rng, 1, 3)) return 0; }
    else return 0;
    n_faults++;
    loosen_all();
    loose_all = 1;
    return call[0] == 't' ? EMFILE : (R(2) ? EAGAIN : ENOMEM);
}
static int on_spurious(void) { return faults_on && rng_chance(&vc_rng, 1, 30); }
/* ---------------------------------------------------------------- scenario */
static void post(cl_t *c, const uint8_t *d, unsigned len, uint64_t at)
{
    uint8_t *x = malloc(len + 1); memcpy(x, d, len);      /* exact copy */
    sim_post(&c->a, &srv_addr, x, len, at); free(x);
    outstanding++;
}
static void add_path(rmsg_t *m, const char *p)
{
    while (*p) { p++; const char *e = strchr(p, '/'); size_t n = e ? (size_t)(e - p) : strlen(p); if (n || e) r_add(m, 11, p, n); p += n; }
}
static unsigned new_mid(cl_t *c)
{
    unsigned m;
    do
    {
        switch (R(12)) { case 0: m = 0; break; case 1: m = 65535; break; case 2: m = R(3); break; case 3: m = c->resp_mid; break; case 4: m = (c->req_mid + 1) & 65535; break; case 5: m = (c->req_mid ^ (R(2) ? 0x100 : 0x8000)) & 65535; break; case 6: m = (c->req_mid + 256) & 65535; break; default: m = c->next_mid++ & 65535; }
    } while (c->have_req && m == c->req_mid);
    return m;
}
static unsigned mk_request(cl_t *c, uint8_t *out, const char *path, int crit)
{
    static const char *plain[] = {"/p", "/", "/p/q", "/sx", "/s/xy", "/s/", "/p/s", "/time", "/S", "/sep/long-resource-nam", "/sep", "/p/a/b/c/d"};
    Y.type = 0; r_init(&Y);
    Y.type = PCT(cf.p_non) ? 1 : 0;
    Y.cls = 0; Y.det = 1 + (PCT(90) ? R(4) : R(31));
    Y.mid = new_mid(c);
    Y.tkl = R(9); rng_bytes(&vc_rng, Y.tok, 8);
    if (!path) path = PCT(cf.p_err) ? "/e" : PCT(cf.p_sep) ? S_PATHS[R(3)] : plain[R(12)];
    add_path(&Y, path);
    for (int n = R(5); n > 0; n--)
    {
        static const unsigned nums[] = {1, 3, 4, 5, 7, 12, 14, 15, 17, 20, 28, 35, 39, 60, 2, 6, 10, 258, 1000, 40000};
        uint8_t v[300]; unsigned l = PCT(10) ? R(280) : R(14); rng_bytes(&vc_rng, v, l); r_add(&Y, nums[R(20)], v, l);
    }
    if (crit)
    {
        static const unsigned cr[] = {9, 13, 19, 21, 25, 29, 33, 61, 2049, 65001, 269, 257, 281};
        uint8_t v[40]; unsigned l = R(40); rng_bytes(&vc_rng, v, l); r_add(&Y, cr[R(13)], v, l);
    }
    if (PCT(50)) { unsigned l = 1 + (PCT(20) ? R(500) : R(60)); uint8_t b[600]; rng_bytes(&vc_rng, b, l); Y.payload = r_store(&Y, b, l); Y.plen = l; }
    return r_encode(&Y, out);
}
/* blockwise follower: build the next request of the transfer; dev: deviate from the protocol */
static unsigned mk_block(cl_t *c, uint8_t *out)
{
    uint8_t v[3]; unsigned vl; int dev = PCT(cf.p_dev) ? 1 + R(9) : 0;
    r_init(&Y);
    Y.type = PCT(25) ? 1 : 0; Y.mid = new_mid(c); Y.tkl = R(9); rng_bytes(&vc_rng, Y.tok, 8);
    if (!c->f_on)
    {
        c->f_on = 1; c->f_method = 1 + R(3); c->f_phase = c->f_method == 1 ? 2 : 1; snprintf(c->f_uri, sizeof c->f_uri, "%s", R(2) ? "/b" : "/b/s");
        c->f_size1 = 16u << R(7); c->f_size2 = 16u << R(7); c->f_upoff = c->f_got = 0;
        c->f_uplen = 1 + R((int)large_len + (PCT(10) ? 900 : 0));
        if (cf.lng) { c->f_uplen = large_len - R(400); if (cf.lng == 2) c->f_size1 = c->f_size2 = 16; else if (c->f_size2 < 256) c->f_size2 = 256; }
        else if (PCT(40)) c->f_uplen = 1 + R(150);
        if (!cf.lng && PCT(15)) c->f_uplen = c->f_size1 * (1 + R(4));
        if (PCT(5)) c->f_uplen = large_len;
        if (c->f_uplen > BODYMAX) c->f_uplen = BODYMAX;
        if (cf.lng != 2 && c->f_uplen / c->f_size1 > 40) c->f_size1 = 256;
        rng_bytes(&vc_rng, c->f_body, c->f_uplen);
        Y.det = c->f_method;
        add_path(&Y, c->f_uri);
        if (c->f_phase == 2) { if (PCT(70)) { vl = r_block_enc(v, dev == 1 ? 1 + R(3) : 0, 0, c->f_size2); r_add(&Y, 23, v, vl); } }
        goto up;
    }
    Y.det = c->f_method;
    add_path(&Y, c->f_uri);
    if (dev == 2) { Y.det = 1 + (c->f_method % 4); }
    if (dev == 3) { Y.nops = 0; add_path(&Y, R(2) ? "/p" : "/b/x"); }
    if (c->f_phase == 2)
    {
        if (PCT(10) && c->f_size2 > 16) c->f_size2 >>= 1;    /* the client may shrink */
        unsigned num = c->f_got / c->f_size2;
        if (dev == 4) num += 1 + R(3);
        if (dev == 5 && num) num--;
        if (dev == 6) num = 0;
        vl = r_block_enc(v, num, 0, c->f_size2);
        if (dev == 7) { v[0] = v[1] = v[2] = 0x0f; vl = 1 + R(3); }
        if (dev != 8) r_add(&Y, 23, v, vl);
        if (dev == 9) { r_add(&Y, 27, "\x07", 1); }
        return r_encode(&Y, out);
    }
up:
    if (c->f_phase == 1)
    {
        if (PCT(10) && c->f_size1 > 16 && c->f_upoff) c->f_size1 >>= 1;
        unsigned num = c->f_upoff / c->f_size1; size_t n = c->f_uplen - c->f_upoff; int more = n > c->f_size1;
        if (more) n = c->f_size1;
        if (dev == 4) num += 1 + R(3);
        if (dev == 5 && num) num--;
        vl = r_block_enc(v, num, more, c->f_size1);
        if (dev == 7) { v[0] = v[1] = v[2] = 0x0f; vl = 1 + R(3); }
        if (!(c->f_upoff == 0 && !more && PCT(20)) && dev != 8) r_add(&Y, 27, v, vl);
        if (c->f_upoff == 0 || !more) { if (PCT(60)) { vl = r_block_enc(v, dev == 9 ? 2 : 0, 0, c->f_size2); r_add(&Y, 23, v, vl); } }
        if (dev != 6) { Y.payload = r_store(&Y, c->f_body + c->f_upoff, n); Y.plen = n; }
    }
    return r_encode(&Y, out);
}
/* let the follower learn from the model's view of the server (what it was told) */
static void follow(cl_t *c)
{
    if (!c->f_on) return;
    if (c->b_active != YES) { c->f_on = 0; return; }
    if (c->b_phase == 2) { c->f_phase = 2; c->f_got = c->b_next2; c->f_size2 = c->b_size2; }
    else { c->f_upoff = c->b_next1; c->f_size1 = c->b_size1; if (c->f_upoff >= c->f_uplen) c->f_on = 0; }
}
static uint64_t some_wait(void)
{
    switch (R(cf.waits_long ? 8 : 6)) { case 0: return R(50) * MSEC; case 1: return R(1000) * MSEC; case 2: return 1000 * MSEC + R(1500) * MSEC; case 3: return R(4000) * MSEC; case 4: return R(9000) * MSEC; case 5: return 3 * SEC + R(100) * MSEC; case 6: return R(60000) * MSEC; }
    return 93 * SEC + R(10000) * MSEC;
}
static void wake(void *x) { (void)x; wait_on = 0; }
static int pickw(const int *w, int n) { int t = 0; for (int i = 0; i < n; i++) t += w[i]; int r = R(t); for (int i = 0; i < n; i++) { if (r < w[i]) return i; r -= w[i]; } return 0; }
static void one_step(cl_t *c, uint64_t at)
{
    uint8_t b[4096]; unsigned n = 0; int act;
    int w[] = {cf.w_new, cf.w_dup, cf.w_stale, cf.w_ack, cf.w_rst, cf.w_wrongack, cf.w_bad, cf.w_ping, cf.w_respcls, cf.w_badver, cf.w_crit, cf.w_wait, cf.w_garbage, cf.w_block, cf.w_collide};
    if (c < C + cf.victims) { w[2] = w[5] = w[6] = w[7] = w[8] = w[9] = w[12] = w[14] = 0; }
    act = pickw(w, 15);
    follow(c);
    if (c->f_on && act == 0 && PCT(90)) act = 13;
    switch (act)
    {
    case 0: n = mk_request(c, b, NULL, 0); break;
    case 1: if (!c->have_req) { n = mk_request(c, b, NULL, 0); break; } n = c->req_len; memcpy(b, c->req, n); break;
    case 2: if (!c->prev_len) return; n = c->prev_len; memcpy(b, c->prev, n); break;
    case 3: case 4:
        if (!c->have_req || !c->resp_known) return;
        b[0] = 0x40 | (act == 3 ? 0x20 : 0x30); b[1] = 0; b[2] = c->resp_mid >> 8; b[3] = c->resp_mid; n = 4; break;
    case 5:
    {
        unsigned m; do m = PCT(50) ? (c->resp_mid + 1 + R(5)) & 65535 : (unsigned)R(65536); while (m == c->resp_mid);
        if (c->pend && PCT(30)) { m = c->req_mid; if (m == c->resp_mid) return; }
        b[0] = 0x40 | (R(2) ? 0x20 : 0x30); b[1] = 0; b[2] = m >> 8; b[3] = m; n = 4;
        break;
    }
    case 6:
    {   /* malformed in a chosen way, any type */
        n = mk_request(c, b, NULL, 0);
        b[0] = (b[0] & 0xcf) | (PCT(60) ? 0 : R(4) << 4);
        switch (R(6))
        {
        case 0: b[0] = (b[0] & 0xf0) | (9 + R(7)); break;
        case 1: n = R(4); break;
        case 2: { static const uint8_t cc[] = {1, 3, 6, 7}; b[1] = cc[R(4)] << 5 | R(32); break; }
        case 3: n = 4 + (b[0] & 15); b[n++] = 0xff; break;
        case 4: n = 4 + (b[0] & 15); b[n++] = R(2) ? 0xf1 : 0x1f; b[n++] = R(255); break;
        case 5: n = 4 + (b[0] & 15); b[n++] = 0xd0 | (5 + R(8)); if (R(2)) b[n++] = R(256); break;
        }
        break;
    }
    case 7: { unsigned m = new_mid(c); b[0] = 0x40; b[1] = 0; b[2] = m >> 8; b[3] = m; n = 4; if (PCT(10)) { b[0] = 0x41; b[4] = 7; n = 5; } if (PCT(10)) b[0] = 0x50; break; }
    case 8: n = mk_request(c, b, NULL, 0); b[1] = (2 + (R(3) ? R(2) * 2 : 3)) << 5 | R(6); if ((b[1] >> 5) != 2 && (b[1] >> 5) != 4 && (b[1] >> 5) != 5) b[1] = 0x45; break;
    case 9: n = mk_request(c, b, NULL, 0); b[0] = (b[0] & 0x3f) | ((R(2) ? 0 : 2 + R(2)) << 6); break;
    case 10: n = mk_request(c, b, NULL, 1); break;
    case 11: wait_on = 1; sim_at(sim_now + some_wait(), wake, NULL); return;
    case 12:
        if (PCT(50)) { n = R(80); rng_bytes(&vc_rng, b, n); if (n && PCT(80)) b[0] = 0x40 | (b[0] & 0x3f); }
        else { n = PCT(10) ? 0 : mk_request(c, b, NULL, 0); for (int k = 1 + R(4); k > 0 && n; k--) b[R(n)] ^= 1 << R(8); if (PCT(30)) n = R(n + 1); if (PCT(5) && cf.big) { n = 1000 + R(600); rng_bytes(&vc_rng, b + 4, n - 4); } }
        break;
    case 13: n = mk_block(c, b); break;
    case 14: if (!c->have_req) return; n = mk_request(c, b, NULL, 0); b[2] = c->req_mid >> 8; b[3] = c->req_mid; break;
    }
    if (n > MAXD && !cf.big) return;
    post(c, b, n, at);
    /* immediate network duplication */
    if (PCT(4)) post(c, b, n, at + R(3000) * MSEC);
}
static void live_probe(cl_t *c)
{
    uint8_t b[2048]; rmsg_t *m = &Y;
    r_init(m); m->type = 0; m->cls = 0; m->det = 1; m->mid = new_mid(c); m->tkl = 4; rng_bytes(&vc_rng, m->tok, 4); add_path(m, "/p");
    unsigned n = r_encode(m, b);
    post(c, b, n, sim_now);
}
static int on_idle(void)
{
    check_due();
    if (vc_viol_in_case) sim_stop(3);
    if (finished) return 0;
    if (outstanding > 0 || wait_on) return 1;
    if (phase == 0)
    {
        if (steps-- > 0)
        {
            if (cf.faults) faults_on = PCT(60);
            int n = cf.burst && PCT(20) ? 2 + R(4) : 1;
            if (cf.spaced) { if (PCT(70)) { wait_on = 1; sim_at(sim_now + SEC + R(1500) * MSEC, wake, NULL); } }
            for (int i = 0; i < n; i++)
            {
                cl_t *c = &C[R(cf.spaced && PCT(75) ? (nC < 8 ? nC : 8) : nC)];
                /* acknowledgement plan of pending responses */
                one_step(c, sim_now + (PCT(50) ? 0 : R(300) * MSEC));
                if (wait_on && !cf.spaced) break;
            }
            if (!outstanding && !wait_on) { wait_on = 1; sim_at(sim_now + R(100) * MSEC, wake, NULL); }
            return 1;
        }
        phase = 1; faults_on = 0; oom_mode = 0; vmem_fail_at = vmem_fail_from = -1; vmem_fail_fn = NULL;
        wait_on = 1; sim_at(sim_now + 110 * SEC, wake, NULL);
        return 1;
    }
    if (phase == 1) { phase = 2; live_i = 0; }
    if (phase == 2)
    {
        /* every address, and a brand-new one, is still served; two probes re-synchronise, the third is judged strictly */
        if (live_i < 3 * (nC < 6 ? nC : 6))
        {
            cl_t *c = &C[live_i / 3];
            if (live_i % 3 == 2) { if (c->sure && c->tracked == YES && c->b_active == NO) n_strict_live++; else if (!vc_viol_in_case) { vc_viol("not-serving", "client %d is not served normally after the workload (sure %d tracked %d block %d)", cid(c), c->sure, c->tracked, c->b_active); } }
            live_i++;
            live_probe(c);
            return 1;
        }
        phase = 3; finished = 1; sim_stop(1);
    }
    return 0;
}
static long n_oom; static int oom_den;
static int oom_fn(long idx) { (void)idx; if (!oom_mode) return 0; int f = oom_at > 0 ? --oom_at == 0 : oom_den ? rng_chance(&app_rng, 1, oom_den) : 0; n_oom += f; return f; }
static void scenario(void)
{
    int r;
    uint64_t seed = rng_u64(&vc_rng);
    simlog_verbose = vc_verbose;
    memset(&sg, 0, sizeof sg);
     finished = phase = outstanding = wait_on = faults_on = loose_all = 0; trace_h = 0;
    steps = rng_range(&vc_rng, cf.stepmin, cf.stepmax);
    app_rng.s = vc_mix(seed, 99);
    static const size_t lens[] = {64, 100, 256, 600, 1024, 2000, 4096, 8192};
    large_len = cf.lng ? 66000 + R(9000) : lens[R(8)];
    if (large_len > BODYMAX) large_len = BODYMAX;
    coap_mem_all_destroy();
    if (coap_mem_all_create(1024, 128, 1024, MAXD, 64, large_len)) abort();
    vmem_reset();
    sim_reset(seed);
    sim_addr(&srv_addr, SRV_HOST, SRV_PORT);
    nC = cf.clients < 0 ? rng_range(&vc_rng, 1, -cf.clients) : cf.clients;
    for (int i = 0; i < nC; i++)
    {
        cl_t *c = &C[i];
        memset(c, 0, offsetof(cl_t, b_up));
        /* addresses that differ in the host only, in the port only, or both */
        unsigned host = 0x100 + (i % 3 == 0 ? 0 : i), port = 40000 + (i % 3 == 1 ? 0 : i * 256);
        if (i % 3 == 0) port = 40001 + i;
        sim_addr(&c->a, host, port);
        c->sure = 1; c->next_mid = rng_below(&vc_rng, 65536);
    }
    sim_rand_top = PCT(15) ? 2 : 0; ids_wrapped = 0; last_id = 65536;
    r = coap_server_create(&srv, app, sim_addr_str(SRV_HOST), "5683");
    if (r != 0) { vc_viol("create", "coap_server_create returned %d", r); return; }
    for (int i = 0; i < 3; i++) if (coap_server_add_sep_resp_uri_path(&srv, S_PATHS[i]) != 0) { vc_viol("create", "cannot register a separate path"); return; }
    sim_on_send = on_send; sim_on_consume = on_consume; sim_on_select = on_select; sim_on_idle = on_idle; sim_fault = on_fault; sim_spurious = on_spurious;
    oom_mode = cf.oom; n_oom = 0;
    if (cf.oom) { vmem_fail_fn = oom_fn; oom_at = oom_den = 0; if (PCT(60)) oom_at = 1 + R(120); else oom_den = PCT(50) ? 8 + R(40) : 100; }
    r = setjmp(sim_stop_buf);
    if (r == 0)
    {
        int ret = coap_server_run(&srv);
        vc_viol("server-stopped", "coap_server_run returned %d", ret);
    }
    else if (r == 2 && !vc_viol_in_case) vc_viol("stuck", "nothing left to happen before the scenario ended");
    sim_on_send = NULL; sim_on_consume = NULL; sim_on_select = NULL; sim_fault = NULL;
    coap_server_destroy(&srv);
    if (!vc_viol_in_case)
    {
        if (vmem_live() || vmem_bad_frees) vc_viol("pool-leak", "after destroying the server: live buffers %ld/%ld/%ld, bad frees %ld", vmem_live_pool(0), vmem_live_pool(1), vmem_live_pool(2), vmem_bad_frees);
        if (sim_open_fds()) vc_viol("descriptor-leak", "after destroying the server %d descriptors are still open", sim_open_fds());
        if (sim_bad_close) vc_viol("bad-close", "%ld closes of descriptors that were not open", sim_bad_close);
    }
    if (vmem_live()) vmem_drop_all();
    vc_distinct(trace_h);
    if (vc_want_sample()) vc_sample("%d clients, %ld datagrams judged so far, %ld requests, %ld duplicates, %ld retransmissions; this case ended at virtual %.1f s with trace hash %016llx", nC, n_segs, n_req, n_dup, n_retr, (sim_now - 1000 * SEC) / 1e9, (unsigned long long)trace_h);
    vc_count("segments_judged", n_segs); vc_count("new_requests", n_req); vc_count("duplicates", n_dup); vc_count("retransmissions", n_retr); vc_count("give_ups", n_giveup);
    vc_count("malformed_or_misplaced", n_bad); vc_count("blocks_downloaded", n_block_ok); vc_count("uploads_completed", n_upl); vc_count("long_scenarios", n_long); n_long = 0; vc_count("block_errors", n_blockerr); vc_count("definite_evictions", n_evict);
    vc_count("acks_resets", n_acks); vc_count("critical_options", n_badopt); vc_count("ambiguous", n_ambig); vc_count("call_faults", n_faults); vc_count("send_faults", n_sendfail); vc_count("strict_liveness_probes", n_strict_live);
    vc_count("allocation_failures", n_oom);
    n_segs = n_req = n_dup = n_retr = n_giveup = n_bad = n_block_ok = n_upl = n_blockerr = n_evict = n_acks = n_badopt = n_ambig = n_faults = n_sendfail = n_strict_live = 0;
}
static void m_dedup(void)   { memset(&cf, 0, sizeof cf); cf.clients = -4; cf.stepmin = 10; cf.stepmax = 60; cf.w_new = 30; cf.w_dup = 50; cf.w_ack = 10; cf.w_rst = 3; cf.w_wait = 15; cf.w_crit = 4; cf.w_block = 10; cf.w_stale = 2; cf.w_bad = 1; cf.w_wrongack = 4; cf.w_ping = 3; cf.w_respcls = 2; cf.p_sep = 35; cf.p_non = 30; cf.p_err = 3; cf.burst = 1; cf.p_dev = 5; scenario(); }
static void m_corr(void)    { memset(&cf, 0, sizeof cf); cf.clients = -6; cf.stepmin = 10; cf.stepmax = 60; cf.w_new = 70; cf.w_dup = 10; cf.w_ack = 15; cf.w_rst = 5; cf.w_wait = 10; cf.w_crit = 5; cf.w_block = 5; cf.p_sep = 40; cf.p_non = 35; cf.p_err = 4; cf.burst = 1; scenario(); }
static void m_retrans(void) { memset(&cf, 0, sizeof cf); cf.clients = -5; cf.stepmin = 8; cf.stepmax = 40; cf.w_new = 30; cf.w_dup = 8; cf.w_ack = 12; cf.w_rst = 6; cf.w_wrongack = 8; cf.w_ping = 3; cf.w_wait = 60; cf.w_crit = 3; cf.w_block = 3; cf.p_sep = 75; cf.p_non = 15; cf.p_err = 2; cf.burst = 1; cf.waits_long = 1; scenario(); }
static void m_hostile(void) { memset(&cf, 0, sizeof cf); cf.clients = -12; cf.stepmin = 20; cf.stepmax = 120; cf.w_new = 25; cf.w_dup = 10; cf.w_stale = 5; cf.w_ack = 8; cf.w_rst = 5; cf.w_wrongack = 8; cf.w_bad = 15; cf.w_ping = 5; cf.w_respcls = 5; cf.w_badver = 4; cf.w_crit = 6; cf.w_wait = 15; cf.w_garbage = 40; cf.w_block = 15; cf.w_collide = 8; cf.p_sep = 35; cf.p_non = 35; cf.p_err = 5; cf.burst = 1; cf.p_dev = 35; cf.waits_long = 1; cf.big = 1; scenario(); }
static void m_faults(void)  { memset(&cf, 0, sizeof cf); cf.clients = -10; cf.stepmin = 15; cf.stepmax = 80; cf.w_new = 40; cf.w_dup = 15; cf.w_ack = 8; cf.w_rst = 5; cf.w_wrongack = 3; cf.w_bad = 5; cf.w_ping = 2; cf.w_crit = 3; cf.w_wait = 35; cf.w_garbage = 5; cf.w_block = 15; cf.p_sep = 50; cf.p_non = 25; cf.p_err = 5; cf.burst = 1; cf.p_dev = 10; cf.waits_long = 1; cf.faults = 1; scenario(); }
static void m_reject(void)  { memset(&cf, 0, sizeof cf); cf.clients = -5; cf.stepmin = 15; cf.stepmax = 60; cf.w_new = 20; cf.w_dup = 5; cf.w_ack = 3; cf.w_rst = 3; cf.w_wrongack = 10; cf.w_bad = 40; cf.w_ping = 15; cf.w_respcls = 15; cf.w_badver = 10; cf.w_crit = 25; cf.w_wait = 5; cf.w_garbage = 15; cf.p_sep = 35; cf.p_non = 40; cf.burst = 1; scenario(); }
static void m_isolate(void) { memset(&cf, 0, sizeof cf); cf.clients = PCT(50) ? 8 : rng_range(&vc_rng, 5, 14); cf.spaced = cf.clients > 8; cf.victims = 4; cf.stepmin = 30; cf.stepmax = 140; cf.w_new = 35; cf.w_dup = 25; cf.w_ack = 6; cf.w_rst = 3; cf.w_wrongack = 2; cf.w_bad = 4; cf.w_ping = 2; cf.w_respcls = 2; cf.w_crit = 3; cf.w_wait = 8; cf.w_garbage = 8; cf.w_block = 25; cf.w_collide = 2; cf.p_sep = 30; cf.p_non = 25; cf.burst = !cf.spaced; cf.p_dev = 4; scenario(); }
static void m_lru(void)     { memset(&cf, 0, sizeof cf); cf.clients = rng_range(&vc_rng, 9, 13); cf.spaced = 1; cf.victims = 13; cf.stepmin = 30; cf.stepmax = 120; cf.w_new = 40; cf.w_dup = 45; cf.w_ack = 6; cf.w_block = 6; cf.p_sep = 15; cf.p_non = 20; scenario(); }
static void m_block(void)   { memset(&cf, 0, sizeof cf); cf.clients = -3; cf.stepmin = 20; cf.stepmax = 150; cf.w_new = 3; cf.w_dup = 8; cf.w_wait = 2; cf.w_block = 85; cf.w_ack = 3; cf.w_crit = 1; cf.p_sep = 20; cf.p_non = 20; cf.burst = 0; cf.p_dev = PCT(50) ? 0 : 12; if (R(250) == 0) { cf.lng = 1 + PCT(30); cf.clients = 1; cf.stepmin = cf.stepmax = cf.lng == 2 ? 6000 : 900; cf.p_dev = R(2); cf.w_dup = 2; cf.w_new = 0; cf.w_wait = 0; cf.w_block = 97; n_long++; } scenario(); }
static void m_oom(void)
{
    memset(&cf, 0, sizeof cf); cf.clients = -4; cf.stepmin = 6; cf.stepmax = 40; cf.w_new = 45; cf.w_dup = 12; cf.w_ack = 10; cf.w_bad = 3; cf.w_crit = 4; cf.w_wait = 10; cf.w_block = 40; cf.p_sep = 40; cf.p_non = 25; cf.p_err = 3; cf.burst = 1; cf.p_dev = 5; cf.oom = 1;
    scenario();
}
int main(int c, char **v)
{
    static const vc_mode_t m[] = {
        {"dedup", m_dedup, "random request/duplicate histories of 1-4 clients; distinct traces of (client, kind, sends, app calls)"},
        {"corr", m_corr, "random request histories of 1-6 clients over piggybacked, separate and non-confirmable paths; distinct traces"},
        {"retrans", m_retrans, "separate responses with acknowledgements early, late, wrong or never, under virtual time; distinct traces"},
        {"hostile", m_hostile, "valid, malformed, colliding and random datagrams from up to 12 addresses, then liveness probes; distinct traces"},
        {"faults", m_faults, "mixed traffic while sends, receives and timer creation fail and select wakes spuriously, then liveness probes; distinct traces"},
        {"reject", m_reject, "malformed, misplaced and unsupported messages of every type mixed with valid ones; distinct traces"},
        {"isolate", m_isolate, "four well-behaved clients among up to ten others, hostile ones included; distinct traces"},
        {"lru", m_lru, "9-13 clients in turn with virtual seconds between them; distinct traces"},
        {"block", m_block, "blockwise downloads and uploads, followed exactly or with deviations; distinct traces"},
        {"oom", m_oom, "mixed server traffic while one or many pool allocations fail, then liveness and leak checks; distinct traces"}, {0, 0, 0}};
    return vc_main(c, v, m);
}
