/* Real CoAP client (no DTLS) on simulated sockets and time against a scripted, possibly hostile server. Every datagram the
   client consumes or sends, the time it does so, and what the exchange returns are judged online. P07, P15-P18. */
#include <errno.h>
#include "vc.h"
#include "sim.h"
#include "refcoap.h"
#include "conv.h"
#include "vmem.h"
#include "coap_mem.h"
#include "coap_msg.h"
#include "coap_client.h"

#define MAXD 1152
#define MAXB 200000
#define R(n) ((int)rng_below(&vc_rng, (n)))
#define PCT(n) (rng_below(&vc_rng, 100) < (unsigned)(n))
extern int simlog_verbose;
enum { W_ACK, W_RESP, OVER };                       /* what the client is waiting for */
enum { O_NONE, O_OK, O_RST, O_MAYFAIL, O_FAIL, O_TIMEOUT };
typedef struct { uint8_t d[1700]; unsigned len; } msgbuf_t;

static coap_client_t cli; static saddr_t sa, ca;
static rmsg_t D, Q, Y, OKM, Z;
static struct
{
    int on, phase, type, nsend, nretr, out, had_fault, may_fail, con_id;
    uint8_t req[1700]; unsigned req_len, mid; uint8_t tok[8]; unsigned tkl;
    uint64_t last, T, base;                         /* time of last (re)transmission, first interval, start of the response wait */
    int seg, nexp; unsigned exp_type, exp_mid;      /* current segment: replies expected to the consumed datagram */
    int ngot; int starved;
    uint64_t decided_at;
} x;
static msgbuf_t hist[64]; static int nhist;         /* what the server sent before, for stale re-delivery */
static rng_t srv_rng; static uint64_t trace_h; static int faults_on, oom_on, exch_no;
static long n_exch, n_ok, n_to, n_rst, n_fail, n_retr, n_cons, n_decoy, n_acks, n_rsts, n_faults, n_sends, n_oom, n_blk, n_bad, n_shr, n_upl, n_big, n_early;
static unsigned ids[64]; static struct { unsigned n; uint8_t t[8]; } toks[4]; static int nids;
static void (*on_request)(int nth);                 /* server script: reacts to the nth transmission of Q */
#define SR(n) ((int)rng_below(&srv_rng, (n)))
#define SPCT(n) (rng_below(&srv_rng, 100) < (unsigned)(n))
static const char *hx(const void *p, unsigned n) { return vc_hex(p, n > 120 ? 120 : n); }
#define V(key, ...) do { vc_viol(key, __VA_ARGS__); } while (0)
static int is_empty(const rmsg_t *m, unsigned type, unsigned mid) { return m->type == type && m->mid == mid && m->cls == 0 && m->det == 0 && !m->tkl && !m->nops && !m->plen; }
static unsigned crit_of(const rmsg_t *m) { for (unsigned i = 0; i < m->nops; i++) if ((m->ops[i].num & 1) && !r_recognised(m->ops[i].num)) return m->ops[i].num; return 0; }

/* ------------------------------------------------------------------ judge */
static void seg_end(void)
{
    if (!x.seg) return;
    x.seg = 0;
    if (x.ngot < x.nexp && !x.had_fault && !oom_on) V("reply-missing", "the client did not answer a datagram that calls for a %s with message id %u", x.exp_type == 2 ? "acknowledgement" : "reset", x.exp_mid);
}
static int on_send(const saddr_t *from, const saddr_t *to, const void *d, unsigned len)
{
    int fail = faults_on && rng_chance(&vc_rng, 1, 10), r;
    (void)from;
    n_sends++;
    if (!sim_addr_eq(to, &sa)) V("wrong-destination", "the client sent to an address other than its server");
    if (!x.on) { V("spontaneous-send", "the client sent outside an exchange: %s", hx(d, len)); return 0; }
    if (len > sizeof x.req) { V("oversized", "the client sent %u bytes", len); return 0; }
    vc_trace("%.3f client -> %s%s", sim_now / 1e9, hx(d, len), fail ? " (send fails)" : "");
    if (fail) { n_faults++; x.had_fault = x.may_fail = 1; }
    if (x.nsend == 0)
    {
        memcpy(x.req, d, len); x.req_len = len; x.nsend = 1;
        r = r_decode(&Q, x.req, len);
        if (r != REF_OK) { V("request-malformed", "the client sent a malformed request %s", hx(d, len)); return 0; }
        x.type = Q.type; x.mid = Q.mid; x.tkl = Q.tkl; memcpy(x.tok, Q.tok, 8); x.phase = Q.type == 0 ? W_ACK : W_RESP; x.last = x.base = sim_now; x.nretr = 0;
        for (int i = 0; i < 64 && i < nids; i++) if (ids[i] == Q.mid) V("message-id-reused", "request %s reuses a message id used %d exchanges ago", hx(d, len), (nids - i + 63) % 64 + 1);
        for (int i = 0; i < 4 && i < nids; i++) if (toks[i].n == Q.tkl && !memcmp(toks[i].t, Q.tok, Q.tkl)) V("token-reused", "request %s reuses the token of a recent exchange", hx(d, len));
        ids[nids % 64] = Q.mid; toks[nids % 4].n = Q.tkl; memcpy(toks[nids % 4].t, Q.tok, 8); nids++;
        if (fail) return ENETUNREACH;
        if (on_request) on_request(1);
        return 0;
    }
    if (len == x.req_len && !memcmp(d, x.req, len) && !(x.seg && x.nexp > x.ngot))
    {
        uint64_t dt = sim_now - x.last, tol = 20 * MSEC;
        n_retr++; x.nsend++;
        if (x.phase != W_ACK || x.type != 0) { V("retransmitted-after-ack", "the client retransmitted %s although it %s", hx(d, len), x.type ? "is non-confirmable" : "was acknowledged or answered"); return 0; }
        if (x.nretr >= 4) { V("retransmitted-too-often", "retransmission %d", x.nretr + 1); return 0; }
        if (x.nretr == 0) { if (dt + tol < 2 * SEC || dt > 3 * SEC + tol) V("retransmission-time", "first retransmission after %.3f s", dt / 1e9); x.T = dt; }
        else { uint64_t w = x.T << x.nretr; if (dt + tol < w || dt > w + tol) V("retransmission-time", "retransmission %d after %.3f s instead of %.3f s", x.nretr + 1, dt / 1e9, w / 1e9); }
        x.nretr++; x.last = sim_now;
        if (fail) return EHOSTUNREACH;
        if (on_request) on_request(x.nsend);
        return 0;
    }
    r = r_decode(&Z, d, len);
    if (r != REF_OK) { V("reply-malformed", "the client sent a malformed message %s", hx(d, len)); return 0; }
    if (!x.seg || x.ngot >= x.nexp) { V("unexpected-send", "the client sent %s, which nothing calls for", hx(d, len)); return 0; }
    if (!is_empty(&Z, x.exp_type, x.exp_mid)) { V("wrong-reply", "expected an empty %s of %u, the client sent %s", x.exp_type == 2 ? "acknowledgement" : "reset", x.exp_mid, hx(d, len)); return 0; }
    x.ngot++;
    if (x.exp_type == 2) n_acks++; else n_rsts++;
    return fail ? ECONNREFUSED : 0;
}
static void expect(unsigned type, unsigned mid) { x.nexp = 1; x.exp_type = type; x.exp_mid = mid; }
static void decide(int out) { x.out = out; x.phase = OVER; x.decided_at = sim_now; }
static void on_consume(const pkt_t *p, unsigned got)
{
    int r = r_decode(&D, p->d, got);
    seg_end();
    n_cons++;
    if (!x.on) { V("consume-outside", "the client read a datagram outside an exchange"); return; }
    x.seg = 1; x.nexp = x.ngot = 0;
    trace_h = vc_mix(trace_h, x.phase * 64 + x.type * 16 + (r == REF_OK ? D.type : 5) + (uint64_t)(D.tkl == x.tkl && !memcmp(D.tok, x.tok, x.tkl)) * 1000 + (uint64_t)(D.mid == x.mid) * 3000);
    vc_trace("%.3f client <- %s", sim_now / 1e9, hx(p->d, got));
    if (x.phase == OVER) { if (x.out == O_MAYFAIL || oom_on || x.had_fault) { x.phase = x.con_id; } else { V("kept-listening", "the exchange was over but the client read on: %s", hx(p->d, got)); return; } }
    if (x.nsend == 0) { V("read-before-send", "the client read before it sent its request"); return; }
    int tokm = r == REF_OK && D.tkl == x.tkl && !memcmp(D.tok, x.tok, x.tkl), idm = r == REF_OK && D.mid == x.mid;
    x.con_id = x.phase;
    if (r != REF_OK)
    {
        if (r == REF_BAD && got >= 4 && ((p->d[0] >> 4) & 3) == 0 && (p->d[0] >> 6) == 1) expect(3, p->d[2] * 256u + p->d[3]);
        decide(O_MAYFAIL);
        return;
    }
    if (D.type == 3) { if (idm) decide(O_RST); return; }
    if (D.type == 2)
    {
        if (idm && x.type == 0)
        {
            if (x.phase == W_RESP) return;                                     /* duplicate acknowledgement */
            if (!D.cls && !D.det) { x.phase = W_RESP; x.base = sim_now; return; }
            if (tokm) { if (crit_of(&D)) decide(O_FAIL); else { decide(O_OK); memcpy(&OKM, &D, offsetof(rmsg_t, store)); goto keep; } return; }
            decide(O_MAYFAIL);
            return;
        }
        if (idm || tokm) decide(O_MAYFAIL);
        return;
    }
    if (tokm && (D.cls == 2 || D.cls == 4 || D.cls == 5))
    {
        if (crit_of(&D)) { if (D.type == 0) expect(3, D.mid); decide(O_FAIL); return; }
        if (D.type == 0) expect(2, D.mid);
        decide(O_OK);
        goto keep;
    }
    if (D.type == 0) expect(3, D.mid);
    return;
keep:
    r_decode(&OKM, p->d, got);
}
static void on_select(void) { seg_end(); if (vc_viol_in_case) sim_stop(3); }
static int on_idle(void)
{
    if (vc_viol_in_case) sim_stop(3);
    /* anything due must have happened */
    if (x.on && x.nsend && !x.had_fault && !oom_on)
    {
        uint64_t tol = 20 * MSEC;
        if (x.phase == W_ACK) { uint64_t lim = x.nretr == 0 ? 3 * SEC : x.T << x.nretr; if (sim_now > x.last + lim + tol) V(x.nretr < 4 ? "retransmission-missing" : "timeout-missing", "%.3f s after transmission %d the client is still waiting", (sim_now - x.last) / 1e9, x.nretr + 1); }
        if (x.phase == W_RESP && sim_now > x.base + 30 * SEC + tol) V("timeout-missing", "the client still waits %.3f s after the %s", (sim_now - x.base) / 1e9, x.type ? "request" : "acknowledgement");
        if (x.phase == OVER && x.out != O_MAYFAIL && sim_now > x.decided_at + tol) V("kept-listening", "the exchange is decided but the client still waits");
    }
    if (vc_viol_in_case) sim_stop(3);
    return 1;
}
static int on_fault(const char *call)
{
    if (!faults_on) return 0;
    if (!strcmp(call, "recv") && rng_chance(&vc_rng, 1, 10)) { n_faults++; if (PCT(50)) return EAGAIN; x.had_fault = x.may_fail = 1; return ECONNREFUSED; }
    return 0;
}
static int on_spurious(void) { return faults_on && rng_chance(&vc_rng, 1, 25); }
static int oom_fn(long i) { (void)i; if (!oom_on || !rng_chance(&vc_rng, 1, oom_on)) return 0; n_oom++; return 1; }

/* run one exchange and judge its result; returns its return value */
static int begin(void) { memset(&x, 0, sizeof x); x.on = 1; n_exch++; exch_no++; return 0; }
static void end_exchange(int ret, coap_msg_t *resp)
{
    const char *d; uint64_t tol = 20 * MSEC;
    seg_end();
    x.on = 0;
    if (vc_viol_in_case) return;
    vc_trace("%.3f exchange returned %d (phase %d outcome %d)", sim_now / 1e9, ret, x.phase, x.out);
    trace_h = vc_mix(trace_h, 77 + (ret < 0) * 3 + x.out + 100 * x.nretr);
    if (ret == 0)
    {
        n_ok++;
        if (x.out != O_OK) { V("false-success", "the exchange succeeded although no acceptable response to it arrived (phase %d, outcome %d, request %s)", x.phase, x.out, hx(x.req, x.req_len)); return; }
        if ((d = msg_differs(resp, &OKM))) V("response-altered", "the returned response has a different %s than the datagram received", d);
        return;
    }
    if (ret > 0) { V("return-value", "the exchange returned %d", ret); return; }
    if (oom_on || x.had_fault) { n_fail++; return; }
    if (x.out == O_OK) { V("response-lost", "the response arrived but the exchange failed with %d", ret); return; }
    if (x.out == O_RST) { n_rst++; if (ret != -ECONNRESET) V("reset-result", "a reset of the request made the exchange return %d", ret); return; }
    if (x.out == O_MAYFAIL || x.out == O_FAIL) { n_fail++; return; }
    if (ret != -ETIMEDOUT) { V("failure-reason", "the exchange failed with %d although nothing but silence happened", ret); return; }
    n_to++;
    if (x.phase == W_ACK && (x.nretr != 4 || sim_now + tol < x.last + (x.T << 4))) V("early-timeout", "timeout after %d retransmissions, %.3f s after the last", x.nretr, (sim_now - x.last) / 1e9);
    if (x.phase == W_RESP && sim_now + tol < x.base + 30 * SEC) V("early-timeout", "timeout %.3f s after the %s", (sim_now - x.base) / 1e9, x.type ? "request" : "acknowledgement");
}
/* ------------------------------------------------------------------ scripted server */
static void srv_post(rmsg_t *m, uint64_t delay)
{
    uint8_t b[2048]; unsigned n = r_encode(m, b);
    if (n <= sizeof hist[0].d) { msgbuf_t *h = &hist[nhist++ % 64]; memcpy(h->d, b, n); h->len = n; }
    sim_post(&sa, &ca, b, n, sim_now + delay);
}
static void raw_post(const void *d, unsigned n, uint64_t delay) { sim_post(&sa, &ca, d, n, sim_now + delay); }
static void fill(rmsg_t *m)
{
    static const uint8_t codes[][2] = {{2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 5}, {2, 31}, {4, 0}, {4, 4}, {4, 31}, {5, 0}, {5, 4}, {2, 0}};
    int k = SR(12);
    m->cls = codes[k][0]; m->det = codes[k][1];
    for (int n = SR(4); n > 0; n--)
    {
        static const unsigned nums[] = {4, 8, 12, 14, 20, 28, 60, 6, 1, 3, 258, 30000, 11, 15, 17, 23, 27};
        uint8_t v[300]; unsigned l = SPCT(8) ? SR(280) : SR(12); rng_bytes(&srv_rng, v, l); r_add(m, nums[SR(17)], v, l);
    }
    if (SPCT(70)) { unsigned l = 1 + (SPCT(10) ? SR(600) : SR(40)); uint8_t b[700]; rng_bytes(&srv_rng, b, l); m->payload = r_store(m, b, l); m->plen = l; }
}
static void to_me(rmsg_t *m) { m->tkl = x.tkl; memcpy(m->tok, x.tok, 8); }
static void empty(unsigned type, unsigned mid, uint64_t delay) { r_init(&Y); Y.type = type; Y.mid = mid; srv_post(&Y, delay); }
static unsigned other_mid(void) { unsigned m; do { m = SPCT(40) ? (x.mid + (SPCT(50) ? 1 : 256)) & 65535 : (unsigned)SR(65536); } while (m == x.mid); return m; }
static uint64_t some(void)
{
    switch (SR(8)) { case 0: case 1: return 0; case 2: return SR(50) * MSEC; case 3: return SR(2500) * MSEC; case 4: return SR(7000) * MSEC; case 5: return SR(29900) * MSEC; case 6: return SR(40000) * MSEC; }
    return SR(400) * MSEC;
}
/* a datagram that must not be taken for the response; kind of trouble allowed: hard = may make the exchange fail */
static void decoy(uint64_t delay, int hard)
{
    uint8_t b[1700]; unsigned n;
    n_decoy++;
    switch (SR(hard ? 18 : 11))
    {
    case 0: if (nhist) { msgbuf_t *h = &hist[SR(nhist < 64 ? nhist : 64)]; r_decode(&Z, h->d, h->len); if (Z.tkl == x.tkl && !memcmp(Z.tok, x.tok, x.tkl)) return; if (Z.mid == x.mid) return; raw_post(h->d, h->len, delay); } return;
    case 1: r_init(&Y); fill(&Y); Y.type = 0; Y.mid = SPCT(20) ? x.mid : other_mid(); Y.tkl = SR(9); rng_bytes(&srv_rng, Y.tok, 8); break;
    case 2: r_init(&Y); fill(&Y); Y.type = 1; Y.mid = SPCT(20) ? x.mid : other_mid(); Y.tkl = SR(9); rng_bytes(&srv_rng, Y.tok, 8); break;
    case 3: r_init(&Y); fill(&Y); Y.type = SR(2); Y.mid = other_mid(); to_me(&Y); Y.tok[SR(4)] ^= 1 << SR(8); break;       /* one bit off */
    case 4: r_init(&Y); fill(&Y); Y.type = SR(2); Y.mid = other_mid(); to_me(&Y); Y.tkl = SR(4); break;                     /* token prefix */
    case 5: r_init(&Y); fill(&Y); Y.type = SR(2); Y.mid = other_mid(); to_me(&Y); Y.tkl = 5 + SR(4); break;                 /* longer token */
    case 6: empty(2, other_mid(), delay); return;
    case 7: empty(3, other_mid(), delay); return;
    case 8: empty(0, SPCT(30) ? x.mid : other_mid(), delay); return;                                                      /* ping */
    case 9: r_init(&Y); fill(&Y); Y.type = 2; Y.mid = other_mid(); Y.tkl = SR(9); rng_bytes(&srv_rng, Y.tok, 8); break;
    case 10: r_init(&Y); Y.cls = 0; Y.det = 1 + SR(4); Y.type = SR(2); Y.mid = other_mid(); Y.tkl = 4; rng_bytes(&srv_rng, Y.tok, 8); break;   /* a request */
    case 11: r_init(&Y); fill(&Y); Y.type = 2; Y.mid = x.mid; to_me(&Y); Y.tok[SR(4)] ^= 1 << SR(8); break;                /* right id, wrong token */
    case 12: r_init(&Y); fill(&Y); Y.type = 2; Y.mid = other_mid(); to_me(&Y); break;                                      /* right token, wrong id */
    case 13: r_init(&Y); fill(&Y); Y.type = SR(3); Y.mid = Y.type == 2 ? x.mid : other_mid(); to_me(&Y); { static const unsigned cr[] = {9, 13, 19, 61, 2049, 65001}; r_add(&Y, cr[SR(6)], "x", SR(2)); } break;
    case 14: r_init(&Y); fill(&Y); Y.type = SR(4); Y.mid = SPCT(40) ? x.mid : other_mid(); to_me(&Y); n = r_encode(&Y, b); b[0] = (b[0] & 0xf0) | (9 + SR(7)); raw_post(b, n, delay); return;
    case 15: r_init(&Y); fill(&Y); Y.type = SR(2); Y.mid = other_mid(); to_me(&Y); n = r_encode(&Y, b); n = SR(n); raw_post(b, n, delay); return;
    case 16: n = SR(40); rng_bytes(&srv_rng, b, n); raw_post(b, n, delay); return;
    case 17: r_init(&Y); fill(&Y); Y.type = SR(2); Y.mid = other_mid(); to_me(&Y); n = r_encode(&Y, b); b[0] = (b[0] & 0x3f) | ((SPCT(50) ? 0 : 2 + SR(2)) << 6); raw_post(b, n, delay); return;
    }
    if (Y.tkl == x.tkl && !memcmp(Y.tok, x.tok, x.tkl) && Y.type < 2 && !crit_of(&Y)) return;
    srv_post(&Y, delay);
}
static struct { int decoys, hard, faults, oom; } cf;
static int drop_first, plan;
static unsigned con_resp_mid; static int answered;
static void respond(void)
{
    uint64_t d1 = some(), d2 = some();
    answered = 1;
    switch (plan)
    {
    case 0: case 1: case 2:                                      /* piggybacked (or, for a NON request, NON response) */
        r_init(&Y); fill(&Y); Y.type = x.type == 0 ? 2 : 1; Y.mid = x.type == 0 ? x.mid : other_mid(); to_me(&Y); srv_post(&Y, d1); break;
    case 3: case 4: case 5: case 6:                              /* acknowledgement, then separate CON or NON response, in any order */
        if (x.type == 0) { if (plan != 6) empty(2, x.mid, d1); if (SPCT(30)) empty(2, x.mid, d1 + some()); }
        r_init(&Y); fill(&Y); Y.type = plan == 4; Y.mid = SPCT(15) ? x.mid : other_mid(); to_me(&Y);
        srv_post(&Y, SPCT(80) ? d1 + d2 : d2);
        if (SPCT(30)) { srv_post(&Y, d1 + d2 + some()); }        /* retransmission of the separate response */
        break;
    case 7: empty(3, x.mid, d1); break;
    case 8: if (x.type == 0) empty(2, x.mid, d1); break;         /* acknowledgement only */
    case 9: answered = 0; break;                                 /* silence */
    }
}
static void req_plain(int nth)
{
    for (int n = cf.decoys ? SR(cf.decoys) : 0; n > 0; n--) decoy(some(), cf.hard && SPCT(10));
    if (nth <= drop_first) return;
    if (answered && SPCT(50)) return;
    respond();
}
static void reset_world(void)
{
    uint64_t seed = rng_u64(&vc_rng);
    simlog_verbose = vc_verbose;
    srv_rng.s = vc_mix(seed, 7); nhist = 0; nids = 0; trace_h = 0; exch_no = 0; faults_on = oom_on = 0;
    coap_mem_all_destroy();
    if (coap_mem_all_create(1024, 128, 1024, MAXD, 64, 4096)) abort();
    vmem_reset(); sim_reset(seed);
    sim_addr(&sa, 1, 5683); sim_addr(&ca, 2, 40000); sim_local_for_connect(&ca);
    sim_on_send = on_send; sim_on_consume = on_consume; sim_on_select = on_select; sim_on_idle = on_idle; sim_fault = on_fault; sim_spurious = on_spurious;
    memset(&x, 0, sizeof x);
}
static void finish_world(int created)
{
    x.on = 0; sim_on_send = NULL; sim_on_consume = NULL; sim_on_select = NULL; sim_fault = NULL; sim_on_idle = NULL; oom_on = 0; faults_on = 0;
    if (created) coap_client_destroy(&cli);
    if (!vc_viol_in_case)
    {
        if (vmem_live() || vmem_bad_frees) V("pool-leak", "after destroying everything: live buffers %ld/%ld/%ld, bad frees %ld", vmem_live_pool(0), vmem_live_pool(1), vmem_live_pool(2), vmem_bad_frees);
        if (sim_open_fds()) V("descriptor-leak", "%d descriptors still open", sim_open_fds());
        if (sim_bad_close) V("bad-close", "%ld bad closes", sim_bad_close);
    }
    if (vmem_live()) vmem_drop_all();
    vc_distinct(trace_h);
    vc_count("exchanges", n_exch); vc_count("succeeded", n_ok); vc_count("timed_out", n_to); vc_count("reset", n_rst); vc_count("failed_otherwise", n_fail); vc_count("retransmissions", n_retr);
    vc_count("datagrams_consumed", n_cons); vc_count("decoys", n_decoy); vc_count("acks_sent", n_acks); vc_count("resets_sent", n_rsts); vc_count("faults", n_faults); vc_count("allocation_failures", n_oom);
    vc_count("blocks", n_blk); vc_count("deviations", n_bad); vc_count("size_reductions", n_shr); vc_count("uploads", n_upl); vc_count("long_transfers", n_big); vc_count("plain_first", n_early);
    if (vc_want_sample()) vc_sample("%ld exchanges (%ld ok, %ld timeouts, %ld resets), %ld datagrams consumed, %ld retransmissions, %ld decoys, trace %016llx", n_exch, n_ok, n_to, n_rst, n_cons, n_retr, n_decoy, (unsigned long long)trace_h);
    n_exch = n_ok = n_to = n_rst = n_fail = n_retr = n_cons = n_decoy = n_acks = n_rsts = n_faults = n_sends = n_oom = n_blk = n_bad = n_shr = n_upl = n_big = n_early = 0;
}
static coap_msg_t req, resp;
static void plain_world(void)
{
    volatile int n = 1 + R(8); int r;
    reset_world();
    r = coap_client_create(&cli, sim_addr_str(1), "5683");
    if (r) { V("create", "coap_client_create returned %d", r); return; }
    coap_msg_create(&req); coap_msg_create(&resp);
    if (cf.oom) { vmem_fail_fn = oom_fn; }
    r = setjmp(sim_stop_buf);
    if (r == 0)
        while (n-- > 0 && !vc_viol_in_case)
        {
            oom_on = 0;
            coap_msg_reset(&req);
            if (PCT(70)) coap_msg_reset(&resp);                  /* else: reuse with leftovers */
            coap_msg_set_type(&req, PCT(75) ? COAP_MSG_CON : COAP_MSG_NON);
            coap_msg_set_code(&req, 0, 1 + R(4));
            for (int k = R(4); k > 0; k--) { char v[20]; unsigned l = 1 + R(19); rng_bytes(&vc_rng, v, l); coap_msg_add_op(&req, PCT(50) ? 11 : 15, l, v); }
            if (PCT(40)) { char b[300]; unsigned l = 1 + R(300); rng_bytes(&vc_rng, b, l); coap_msg_set_payload(&req, b, l); }
            plan = R(10); answered = 0; drop_first = PCT(50) ? 0 : R(6);
            on_request = req_plain;
            if (cf.oom) oom_on = 3 + R(30);
            begin();
            faults_on = cf.faults && PCT(60);
            int ret = coap_client_exchange(&cli, &req, &resp);
            faults_on = 0; oom_on = oom_on ? oom_on : 0;
            end_exchange(ret, &resp);
            oom_on = 0;
            vc_trace("---- plan %d drop %d", plan, drop_first);
        }
    else if (r == 2 && !vc_viol_in_case) V("stuck", "the client waits although nothing can happen any more");
    coap_msg_destroy(&req); coap_msg_destroy(&resp);
    finish_world(1);
}
/* ------------------------------------------------------------------ blockwise */
static uint8_t up[MAXB], down[MAXB], got_up[MAXB], as[MAXB];
static size_t up_len, down_len, got_len, as_len; static unsigned bs1, bs2; static int method, deviated, dev_step, dev_kind, step, sep_style, up_done, down_started, final_code, err_sent, lastmore, as_bad, shr, buf_cap, loss, dup_on;
static int early;                                   /* the first block was asked for by a plain GET */
static uint8_t cur_resp[1700]; static unsigned last_req_mid = 70000;
static char whybuf[160];
#define BV(...) do { snprintf(whybuf, sizeof whybuf, __VA_ARGS__); V("client-blocks", "%s; request %s", whybuf, hx(x.req, x.req_len)); } while (0)
static void send_block_resp(rmsg_t *m)
{
    if (x.type == 1) { m->type = 1; m->mid = other_mid(); to_me(m); srv_post(m, SR(300) * MSEC); return; }
    if (sep_style && SPCT(50)) { rmsg_t *k = &Z; r_init(k); k->type = 2; k->mid = x.mid; srv_post(k, SR(200) * MSEC); m->type = SR(2); m->mid = other_mid(); }
    else { m->type = 2; m->mid = x.mid; }
    to_me(m);
    srv_post(m, SR(1500) * MSEC);
    if (dup_on && SPCT(20)) srv_post(m, SR(6000) * MSEC);
}
static void serve_block(int nth)
{
    unsigned n1 = 0, m1 = 0, s1 = 0, n2 = 0, m2 = 0, s2 = 0; rop_t *o1, *o2; uint8_t v[3];
    static uint8_t cached[1700]; 
    (void)cached; (void)cur_resp;
    if (loss && SPCT(loss) && nth < 4) return;
    if (last_req_mid == x.mid && nth > 1) return;               /* answered this one already; the answer is on its way */
    last_req_mid = x.mid;
    step++;
    r_init(&Y);
    o1 = r_find(&Q, 27, 0); o2 = r_find(&Q, 23, 0);
    if ((o1 && r_block_dec(o1->val, o1->len, &n1, &m1, &s1)) || (o2 && r_block_dec(o2->val, o2->len, &n2, &m2, &s2))) { BV("malformed block option"); return; }
    if (r_find(&Q, 27, 1) || r_find(&Q, 23, 1)) { BV("repeated block option"); return; }
    if (Q.det != (unsigned)method || Q.cls) { BV("method changed to %u.%02u", Q.cls, Q.det); return; }
    { rop_t *u = r_find(&Q, 11, 0); if (!u || u->len != 3 || memcmp(u->val, "res", 3)) { BV("lost its Uri-Path"); return; } }
    if (o1)
    {   /* an upload block */
        if (method == 1) { BV("block1 in a GET"); return; }
        if (down_started) { BV("block1 after the upload was complete"); return; }
        if (s1 > bs1) { BV("block1 size %u larger than agreed %u", s1, bs1); return; }
        bs1 = s1;
        if ((size_t)n1 * s1 != got_len) { BV("upload block at %zu instead of %zu", (size_t)n1 * s1, got_len); return; }
        size_t left = up_len - got_len;
        if (m1 ? (Q.plen != s1 || left <= s1) : (Q.plen != left || Q.plen > s1)) { BV("upload block of %zu bytes (more %u, size %u) where %zu are left", Q.plen, m1, s1, left); return; }
        if (Q.plen && memcmp(Q.payload, up + got_len, Q.plen)) { BV("wrong upload block contents"); return; }
        n_blk++;
        size_t start = got_len;
        got_len += Q.plen;
        if (!m1) up_done = 1;
        unsigned rs = s1;
        if (shr && SPCT(30) && rs > 16) { rs >>= 1 + SR(2); if (rs < 16) rs = 16; n_shr++; bs1 = rs; }
        Y.cls = 2; Y.det = m1 ? 31 : (unsigned)final_code;
        unsigned an = start / rs;
        if (!m1 && down_len)
        {
            if (!o2) { BV("no block2 option in the final upload block"); return; }
            if (s2 != bs2 || n2) { BV("block2 option %u/%u in the final upload block", n2, s2); return; }
        }
        if (step == dev_step && dev_kind < 5) { deviated = 1; n_bad++; switch (dev_kind) { case 0: an += 1 + SR(3); break; case 1: Y.cls = 4; Y.det = 8; err_sent = 1; break; case 2: goto noop1; case 3: Y.cls = 5; Y.det = 0; err_sent = 1; break; case 4: r_add(&Y, 27, "\x0f", 1); goto noop1; } }
        { unsigned vl = r_block_enc(v, an, m1, rs); r_add(&Y, 27, v, vl); }
noop1:
        if (m1 || Y.cls != 2 || !down_len) { send_block_resp(&Y); return; }
        n2 = 0;
    }
    else
    {
        if (method != 1 && !up_done) { BV("no block1 option before the upload was complete"); return; }
        if (!o2 && !(early && step == 1)) { BV("no block2 option"); return; }
        if (!o2) { n2 = 0; s2 = bs2; }
        if (s2 > bs2) { BV("block2 size %u larger than agreed %u", s2, bs2); return; }
        if (down_started && s2 != bs2) { BV("block2 size %u instead of the %u the server chose", s2, bs2); return; }
        if (m2) { BV("more flag set in a block2 request"); return; }
        if ((size_t)n2 * s2 != as_len) { BV("asks for block at %zu instead of %zu", (size_t)n2 * s2, as_len); return; }
        if (method == 1 && Q.plen) { BV("payload in a block2 request"); return; }
        Y.cls = 2; Y.det = final_code;
    }
    /* a download block */
    down_started = 1;
    n_blk++;
    unsigned rs = bs2 < (o2 ? s2 : bs2) ? bs2 : (o2 ? s2 : bs2);
    if (shr && SPCT(30) && rs > 16) { unsigned ns = rs >> (1 + SR(2)); if (ns >= 16) { rs = ns; n_shr++; } }
    bs2 = rs;
    size_t off = as_len, left = down_len - off, take = left > rs ? rs : left; unsigned more = left > rs, num = off / rs;
    unsigned claim = rs;
    if (more && SPCT(50)) Y.det = 31;
    if (step == dev_step && dev_kind >= 5)
    {
        deviated = 1; n_bad++;
        switch (dev_kind)
        {
        case 5: num += 1 + SR(2); break;
        case 6: if (!num) { num = 1; } else num--; break;
        case 7: if (take > 1) take -= 1 + SR(take - 1); break;                       /* short block */
        case 8: more = !more; break;
        case 9: Y.cls = 4; Y.det = 4; err_sent = 1; break;
        case 10: if (claim < 1024) claim <<= 1; break;
        case 11: claim = 0; break;                                                   /* no option */
        case 12: take = rs + 1 + SR(100); break;                                     /* too long a block */
        case 13: Y.det = 3; err_sent = 1; break;                                     /* other success code */
        default: deviated = 0; n_bad--;
        }
    }
    /* what the server's answer claims */
    if (Y.cls == 2 && Y.det != 3)
    {
        if (!claim || (size_t)num * claim != as_len || (more && take != (claim < rs ? claim : rs)) || take > rs) as_bad = 1;   /* a block size above the one asked for is tolerated where it changes nothing */
        lastmore = more;
        if (as_len + take <= MAXB) { for (size_t i = 0; i < take; i++) as[as_len + i] = down[(off + i) % MAXB]; as_len += take; }
    }
    if (claim) { unsigned vl = r_block_enc(v, num, more, claim); r_add(&Y, 23, v, vl); }
    { static uint8_t t[2048]; for (size_t i = 0; i < take && i < sizeof t; i++) t[i] = down[(off + i) % MAXB]; Y.payload = r_store(&Y, t, take); Y.plen = take; }
    send_block_resp(&Y);
}
/* inside a blockwise exchange several plain exchanges run: split them at each new request */
static int on_send_blk(const saddr_t *from, const saddr_t *to, const void *d, unsigned len)
{
    if (x.on && x.nsend && len >= 4 && !(len == x.req_len && !memcmp(d, x.req, len)))
    {
        const uint8_t *b = d;
        if (((b[0] >> 4) & 3) < 2 && b[1] != 0)
        {   /* a new request: the previous exchange must have been won */
            seg_end();
            if (x.out != O_OK && !x.had_fault && !oom_on) V("client-blocks", "the client went on to %s although the previous exchange was not answered", hx(d, len));
            begin();
        }
    }
    return on_send(from, to, d, len);
}
static void block_world(void)
{
    int r; size_t cap; volatile int n = 1 + R(3);
    reset_world();
    sim_on_send = on_send_blk;
    r = coap_client_create(&cli, sim_addr_str(1), "5683");
    if (r) { V("create", "coap_client_create returned %d", r); return; }
    coap_msg_create(&req); coap_msg_create(&resp);
    if (cf.oom) vmem_fail_fn = oom_fn;
    static char *volatile body; body = NULL;
    r = setjmp(sim_stop_buf);
    if (r == 0)
        while (n-- > 0 && !vc_viol_in_case)
        {
            oom_on = 0;
            coap_msg_reset(&req); coap_msg_reset(&resp);
            method = 1 + R(3);
            bs1 = 16u << R(7); bs2 = 16u << R(7); unsigned b1 = bs1, b2 = bs2;
            up_len = 1 + R(PCT(60) ? 200 : 6000); if (PCT(20)) up_len = bs1 * (1 + R(4)); if (up_len / bs1 > 60) up_len = bs1 * 60 + R(bs1);
            down_len = 1 + R(PCT(60) ? 200 : 6000); if (PCT(20)) down_len = bs2 * (1 + R(4)); if (down_len / bs2 > 60) down_len = bs2 * 60 + R(bs2);
            int big = !cf.faults && !cf.oom && R(400) == 0;      /* block numbers of two and three bytes, offsets beyond 16 bits */
            if (big)
            {
                int fine = PCT(40); size_t bl = fine ? 66000 + R(4000) : 60000 + R(120000);
                if (method != 1 && PCT(50)) { up_len = bl; bs1 = b1 = fine ? 16 : 256u << R(3); } else { down_len = bl; bs2 = b2 = fine ? 16 : 256u << R(3); }
                dev_step = PCT(30) ? 1 + R((int)(bl / (fine ? 16 : 1024))) : 0;
                n = 0; n_big++;
            }
            if (method != 1 && PCT(35)) down_len = 0;
            if (method == 1 && PCT(4)) down_len = 0;
            if (PCT(2) && !down_len) up_len = 0;
            rng_bytes(&srv_rng, up, up_len); rng_bytes(&srv_rng, down, MAXB > down_len + 2000 ? down_len + 2000 : MAXB);
            cap = method == 1 ? down_len : up_len;
            if (method == 1) cap = PCT(70) ? down_len + R(300) : PCT(50) ? down_len : (size_t)R(down_len + 1);
            else if (PCT(0)) cap = up_len;
            body = malloc(cap ? cap : 1);
            char *tight = body;
            if (method != 1) memcpy(body, up, up_len);
            coap_msg_set_type(&req, PCT(80) ? COAP_MSG_CON : COAP_MSG_NON); coap_msg_set_code(&req, 0, method); coap_msg_add_op(&req, 11, 3, "res");
            if (PCT(30)) coap_msg_add_op(&req, 15, 3, "a=b");
            got_len = as_len = 0; deviated = up_done = down_started = err_sent = as_bad = lastmore = step = 0; final_code = method == 1 ? 5 : PCT(50) ? 4 : 1;
            sep_style = PCT(50); shr = PCT(50); loss = big || PCT(50) ? 0 : 30; dup_on = PCT(40); last_req_mid = 70000;
            dev_step = PCT(40) ? 1 + R(8) : 0; dev_kind = R(14);
            if (method == 1) dev_kind = 5 + R(9);
            on_request = serve_block;
            if (coap_msg_get_type(&req) == COAP_MSG_NON) loss = 0;
            if (cf.oom) oom_on = 20 + R(300);
            early = method == 1 && PCT(30);
            begin();
            faults_on = cf.faults && PCT(40);
            int hadf0 = n_faults;
            ssize_t ret = 0; int plain_only = 0;
            if (early)
            {   /* as the proxy does: a plain request whose answer turns out to be the first block */
                unsigned bn, bm, bz = 0; n_early++;
                ret = coap_client_exchange(&cli, &req, &resp);
                if (ret == 0 && coap_msg_parse_block_op(&bn, &bm, &bz, &resp, COAP_MSG_BLOCK2) != 0) plain_only = 1;
                else if (ret == 0) ret = coap_client_exchange_blockwise(&cli, &req, &resp, bz, bz, tight, cap, 1);
            }
            else ret = coap_client_exchange_blockwise(&cli, &req, &resp, b1, b2, tight, cap, 0);
            faults_on = 0;
            int faulty = n_faults != hadf0 || oom_on;
            seg_end(); x.on = 0;
            vc_trace("%.3f blockwise method %d up %zu down %zu cap %zu returned %zd, resp %u.%02u; step %d dev %d/%d deviated %d claimed %zu bad %d", sim_now / 1e9, method, up_len, down_len, cap, ret, coap_msg_get_code_class(&resp), coap_msg_get_code_detail(&resp), step, dev_step, dev_kind, deviated, as_len, as_bad);
            trace_h = vc_mix(trace_h, (uint64_t)method * 7 + step * 31 + (ret < 0) + as_len * 1000);
            if (plain_only) { if (!deviated) V("lost-option", "the block2 option of a plain response was lost"); }
            else if (!vc_viol_in_case)
            {
                int cls = coap_msg_get_code_class(&resp), det = coap_msg_get_code_detail(&resp);
                if (ret < 0) { if (!deviated && !faulty && !(as_len > cap) ) V("transfer-failed", "a transfer with a cooperating server failed with %zd (method %d, up %zu, down %zu, buffer %zu, sizes %u/%u)", ret, method, up_len, down_len, cap, b1, b2); n_fail++; }
                else if (cls != 2 || (det != 1 && det != 4 && det != 5 && det != 31)) { if (!err_sent) V("wrong-result", "the exchange returned %zd with code %d.%02d that the server did not send", ret, cls, det); n_fail++; }
                else
                {
                    n_ok++;
                    if (method != 1 && (got_len != up_len || !up_done)) V("upload-incomplete", "reported success after %zu of %zu bytes were uploaded", got_len, up_len);
                    if (method != 1) n_upl++;
                    if (method == 1 || down_len)
                    {
                        if (as_bad) V("bad-block-accepted", "reported success (%zd bytes) although a block had a wrong position or length", ret);
                        else if (lastmore) V("truncated-body", "reported success (%zd bytes) before the final block", ret);
                        else if ((size_t)ret != as_len) V("wrong-length", "returned %zd instead of %zu", ret, as_len);
                        else if (memcmp(tight, as, as_len)) V("wrong-body", "the body returned differs from the one sent (%zu bytes)", as_len);
                    }
                    else if (ret != 0) V("wrong-length", "returned %zd although there was no response body", ret);
                }
            }
            free(body); body = NULL;
        }
    else if (r == 2 && !vc_viol_in_case) V("stuck", "the client waits although nothing can happen any more");
    if (body) free(body);
    coap_msg_destroy(&req); coap_msg_destroy(&resp);
    finish_world(1);
}
static void m_corr(void)   { memset(&cf, 0, sizeof cf); cf.decoys = 5; plain_world(); }
static void m_time(void)   { memset(&cf, 0, sizeof cf); cf.decoys = 2; plain_world(); }
static void m_reply(void)  { memset(&cf, 0, sizeof cf); cf.decoys = 6; cf.hard = 1; plain_world(); }
static void m_faults(void) { memset(&cf, 0, sizeof cf); cf.decoys = 3; cf.hard = 1; cf.faults = 1; if (PCT(60)) plain_world(); else block_world(); }
static void m_block(void)  { memset(&cf, 0, sizeof cf); block_world(); }
static void m_oom(void)    { memset(&cf, 0, sizeof cf); cf.decoys = 2; cf.hard = 1; cf.oom = 1; if (PCT(50)) plain_world(); else block_world(); }
int main(int c, char **v)
{
    static const vc_mode_t m[] = {
        {"corr", m_corr, "exchanges with piggybacked, separate, early, late, lost and absent responses among stale and foreign datagrams; distinct event traces"},
        {"time", m_time, "exchanges under loss with few foreign datagrams; distinct event traces"},
        {"reply", m_reply, "exchanges among hostile datagrams of every type, malformed ones and unknown critical options included; distinct event traces"},
        {"faults", m_faults, "plain and blockwise exchanges while sends and receives fail; distinct event traces"},
        {"block", m_block, "blockwise GET/PUT/POST against a scripted server, cooperating or deviating at one step; distinct traces"},
        {"oom", m_oom, "plain and blockwise exchanges while pool allocations fail; distinct traces"}, {0, 0, 0}};
    return vc_main(c, v, m);
}
