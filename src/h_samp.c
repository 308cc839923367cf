/* P31: the sample servers' request handlers and the sample clients, on top of recording stand-ins for the CoAP transport and for files.
   Modes: reg (registration server), list (registrar), time (time server), store (transfer server), clients. */
#define _GNU_SOURCE
#include <errno.h>
#include <time.h>
#include <stdio.h>
#include <arpa/inet.h>
#include "coap_server.h"
#include "coap_client.h"
#include "coap_mem.h"
#include "reg_server.h"
#include "time_server.h"
#include "transfer_server.h"
#include "reg_client.h"
#include "time_client.h"
#include "transfer_client.h"
#include "vc.h"
#include "vmem.h"
#include "vheap.h"
#define V(...) do { if (!vc_viol_in_case) vc_viol(__VA_ARGS__); } while (0)

/* ---------- stand-ins for the transport ---------- */
static coap_server_trans_handler_t g_handle, g_rx;
static int g_create_ret, g_rx_calls;
int coap_server_create(coap_server_t *s, coap_server_trans_handler_t h, const char *host, const char *port)
{
    if (g_create_ret < 0) return g_create_ret;
    memset(s, 0, sizeof *s); s->handle = h; g_handle = h;
    return 0;
}
void coap_server_destroy(coap_server_t *s) { memset(s, 0, sizeof *s); }
int coap_server_run(coap_server_t *s) { return -EIO; }
int coap_server_add_sep_resp_uri_path(coap_server_t *s, const char *str) { return 0; }
int coap_server_trans_handle_blockwise(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp, unsigned b1, unsigned b2, char *body, size_t len, coap_server_trans_handler_t rx)
{
    g_rx = rx; g_rx_calls++;
    return rx(t, req, resp);
}

/* what the exchange stand-in does */
typedef struct { unsigned num; unsigned len; char val[70]; } seg_t;
static struct
{
    int ret; unsigned cls, det; seg_t seg[8]; int nseg; char pl[300]; size_t npl; int has_pl;
    /* recorded */
    int calls, blockwise; unsigned type, code; char path[300]; size_t npath; char *body; size_t nbody; int has_body, other_ops;
} X;
static int fill(coap_msg_t *m)
{
    int r;
    { int on_ = vh_on; vh_on = 0;
    long fa = vmem_fail_at; vmem_fail_at = -1;                                    /* the stand-in's own allocations do not fail */
    coap_msg_set_type(m, COAP_MSG_ACK);
    coap_msg_set_code(m, X.cls, X.det);
    for (int i = 0; i < X.nseg; i++) if ((r = coap_msg_add_op(m, X.seg[i].num, X.seg[i].len, X.seg[i].val)) < 0) abort();
    if (X.has_pl && (r = coap_msg_set_payload(m, X.pl, X.npl)) < 0) abort();
    vmem_fail_at = fa;
    vh_on = on_; }
    return 0;
}
static void record(coap_msg_t *req, const char *body, size_t n, int has)
{
    coap_msg_op_t *o;
    X.calls++; X.type = coap_msg_get_type(req); X.code = coap_msg_get_code_class(req) * 100 + coap_msg_get_code_detail(req);
    X.npath = 0; X.other_ops = 0;
    for (o = coap_msg_get_first_op(req); o != NULL; o = coap_msg_op_get_next(o))
    {
        if (coap_msg_op_get_num(o) != COAP_MSG_URI_PATH || X.npath + coap_msg_op_get_len(o) + 2 > sizeof X.path) { X.other_ops++; continue; }
        X.path[X.npath++] = '/'; memcpy(X.path + X.npath, coap_msg_op_get_val(o), coap_msg_op_get_len(o)); X.npath += coap_msg_op_get_len(o);
    }
    X.path[X.npath] = 0;
    { int on_ = vh_on; vh_on = 0;
    free(X.body); X.body = malloc(n + 1); if (n) memcpy(X.body, body, n); X.nbody = n; X.has_body = has;
    vh_on = on_; }
}
int coap_client_create(coap_client_t *c, const char *host, const char *port) { if (g_create_ret < 0) return g_create_ret; memset(c, 0, sizeof *c); return 0; }
void coap_client_destroy(coap_client_t *c) { memset(c, 0, sizeof *c); }
int coap_client_exchange(coap_client_t *c, coap_msg_t *req, coap_msg_t *resp)
{
    record(req, coap_msg_get_payload(req), coap_msg_get_payload_len(req), coap_msg_get_payload(req) != NULL);
    X.blockwise = 0;
    return X.ret < 0 ? X.ret : fill(resp);
}
ssize_t coap_client_exchange_blockwise(coap_client_t *c, coap_msg_t *req, coap_msg_t *resp, unsigned b1, unsigned b2, char *body, size_t len, int have_resp)
{
    record(req, body, len, 1);
    X.blockwise = 1;
    if (X.ret < 0) return X.ret;
    fill(resp);
    return 0;
}

/* ---------- stand-ins for files and the clock ---------- */
static time_t g_time;
time_t __wrap_time(time_t *t) { if (t) *t = g_time; return g_time; }
static struct { char name[64], mode[8]; int opens, closes, fail_open; char *data; size_t len, pos; long fail_after; int writing; } F;
static ssize_t f_write(void *c, const char *b, size_t n)
{
    if (F.fail_after >= 0 && F.len + n > (size_t)F.fail_after) { errno = ENOSPC; return 0; }
    { int on_ = vh_on; vh_on = 0; F.data = realloc(F.data, F.len + n + 1); vh_on = on_; }
    memcpy(F.data + F.len, b, n); F.len += n;
    return n;
}
static ssize_t f_read(void *c, char *b, size_t n)
{
    size_t lim = F.len;
    if (F.fail_after >= 0 && F.pos + n > (size_t)F.fail_after) { if (F.pos >= (size_t)F.fail_after) { errno = EIO; return -1; } lim = F.fail_after < (long)F.len ? (size_t)F.fail_after : F.len; }
    if (n > lim - F.pos) n = lim - F.pos;
    memcpy(b, F.data + F.pos, n); F.pos += n;
    return n;
}
static int f_seek(void *c, off64_t *o, int w)
{
    off64_t p = w == SEEK_SET ? *o : w == SEEK_CUR ? (off64_t)F.pos + *o : (off64_t)F.len + *o;
    if (p < 0) { errno = EINVAL; return -1; }
    F.pos = p; *o = p;
    return 0;
}
static int f_close(void *c) { F.closes++; return 0; }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *name, const char *mode)
{
    cookie_io_functions_t io = { f_read, f_write, f_seek, f_close };
    snprintf(F.name, sizeof F.name, "%s", name); snprintf(F.mode, sizeof F.mode, "%s", mode);
    F.opens++;
    if (F.fail_open) { F.opens--; errno = EACCES; return NULL; }
    if (mode[0] == 'w') { F.len = 0; F.writing = 1; io.read = NULL; }
    F.pos = 0;
    int on = vh_on; vh_on = 0;
    FILE *f = fopencookie(NULL, mode, io);
    vh_on = on;
    return f;
}
static void file_set(const char *b, size_t n) { free(F.data); memset(&F, 0, sizeof F); F.fail_after = -1; F.data = malloc(n + 1); if (n) memcpy(F.data, b, n); F.len = n; }

/* ---------- helpers ---------- */
static void path_add(coap_msg_t *m, const char *s, size_t n) { if (coap_msg_add_op(m, COAP_MSG_URI_PATH, n, s) < 0) abort(); }
static void rnd_seg(char *b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = 'a' + rng_below(&vc_rng, 26); b[n] = 0; }
/* adds path segments: 0 the right path, 1 too long for the handlers, 2 some other path; returns what was made */
static int mk_path(coap_msg_t *m, const char *a, const char *b)
{
    unsigned k = rng_below(&vc_rng, 12); char s[256]; size_t n;
    if (k < 7) { path_add(m, a, strlen(a)); if (b) path_add(m, b, strlen(b)); return 0; }
    switch (k)
    {
    case 7: n = rng_range(&vc_rng, 31, 200); rnd_seg(s, n); path_add(m, s, n); return 1;                       /* "/" + n >= 32 */
    case 8: path_add(m, a, strlen(a)); path_add(m, "more", 4); return 2;
    case 9: return 2;                                                                                          /* no path at all */
    case 10: n = rng_range(&vc_rng, 1, 30); rnd_seg(s, n); path_add(m, s, n); return 2;                        /* fits */
    default: path_add(m, a, strlen(a)); if (b) path_add(m, b, strlen(b)); path_add(m, "", 0); return 2;
    }
}
static unsigned code_of(coap_msg_t *m) { return coap_msg_get_code_class(m) * 100 + coap_msg_get_code_detail(m); }
static void mk_trans(coap_server_trans_t *t, coap_server_t *s)
{
    memset(t, 0, sizeof *t);
    t->active = 1; t->server = s; t->client_sin_len = sizeof t->client_sin;
    ((struct sockaddr *)&t->client_sin)->sa_family = COAP_IPV_AF_INET;
    rng_bytes(&vc_rng, &t->client_sin.COAP_IPV_SIN_ADDR, sizeof t->client_sin.COAP_IPV_SIN_ADDR);
    if (rng_chance(&vc_rng, 1, 3)) memset(&t->client_sin.COAP_IPV_SIN_ADDR, rng_chance(&vc_rng, 1, 2) ? 0xff : 0, sizeof t->client_sin.COAP_IPV_SIN_ADDR);
    t->client_sin.COAP_IPV_SIN_PORT = rng_below(&vc_rng, 65536);
    inet_ntop(COAP_IPV_AF_INET, &t->client_sin.COAP_IPV_SIN_ADDR, t->client_addr, sizeof t->client_addr);
}
static int same_path(coap_msg_t *m, const char *want) { char b[300] = {0}; size_t n = coap_msg_uri_path_to_str(m, b, sizeof b); return n == strlen(want) && strcmp(b, want) == 0; }
static int pl_is(coap_msg_t *m, const char *s, size_t n) { return coap_msg_get_payload_len(m) == n && (n == 0 || memcmp(coap_msg_get_payload(m), s, n) == 0); }
static void begin(void) { vmem_reset(); vmem_fail_at = vmem_fail_from = -1; vmem_fail_fn = NULL; vh_forget(); g_create_ret = 0; g_rx_calls = 0; file_set("", 0); }
static void leaks(const char *what)
{
    if (vmem_live()) V("leak", "%s: %ld pool buffers still allocated afterwards", what, vmem_live());
    if (vmem_bad_frees) V("bad-free", "%s: freed a pool buffer that was not allocated", what);
    vmem_drop_all();
}

/* ---------- registration server ---------- */
#define MAXR 400
static struct { char id[64], addr[64]; } R[MAXR]; static int nR;
static int r_find(const char *id) { for (int i = 0; i < nR; i++) if (strcmp(R[i].id, id) == 0) return i; return -1; }
static void r_check(registrar_t *g, const char *after)
{
    int n = 0; registrar_entry_t *e, *last = NULL;
    for (e = registrar_get_first(g); e != NULL; e = registrar_entry_get_next(e), n++)
    {
        if (n >= nR) { V("registry-extra", "%s: the registry holds more than the %d clients registered", after, nR); return; }
        if (strcmp(registrar_entry_get_id(e), R[n].id) != 0 || strcmp(registrar_entry_get_addr(e), R[n].addr) != 0)
        { V("registry-wrong", "%s: entry %d is '%s' at %s instead of '%s' at %s", after, n, registrar_entry_get_id(e), registrar_entry_get_addr(e), R[n].id, R[n].addr); return; }
        last = e;
    }
    if (n != nR) { V("registry-lost", "%s: the registry holds %d of the %d clients registered", after, n, nR); return; }
    if (registrar_get_last(g) != last) { V("registry-last", "%s: the end of the registry is not its last entry", after); return; }
    for (e = registrar_get_last(g); e != NULL; e = registrar_entry_get_prev(e)) if (--n < 0 || strcmp(registrar_entry_get_id(e), R[n].id) != 0) { V("registry-back", "%s: the registry read backwards differs", after); return; }
    if (n != 0) V("registry-back", "%s: the registry read backwards is short", after);
}
static void rnd_id(char *id) { size_t n = rng_chance(&vc_rng, 3, 4) ? rng_range(&vc_rng, 1, 2) : rng_range(&vc_rng, 1, 31); for (size_t i = 0; i < n; i++) id[i] = n <= 2 ? 'a' + rng_below(&vc_rng, 6) : 1 + rng_below(&vc_rng, 255); id[n] = 0; }
static void m_reg(void)
{
    static reg_server_t S; uint64_t h = 0;
    begin(); nR = 0; g_handle = NULL;
    if (rng_chance(&vc_rng, 1, 50))
    {
        g_create_ret = -EADDRINUSE;
        if (reg_server_create(&S, "0.0.0.0", "1", "", "", "", "") >= 0) V("create", "creating the server succeeded although the CoAP server could not be created");
        vc_count("failed_creates", 1);
        return;
    }
    vh_begin(0);
    if (reg_server_create(&S, "0.0.0.0", "1", "", "", "", "") < 0 || g_handle == NULL) { V("create", "the server cannot be created"); return; }
    int ops = rng_range(&vc_rng, 1, 60);
    for (int k = 0; k < ops && !vc_viol_in_case; k++)
    {
        coap_server_trans_t t; coap_msg_t req, resp; char pl[400], addr[64]; size_t npl; int fail = rng_chance(&vc_rng, 1, 12), heap_fail = rng_chance(&vc_rng, 1, 20), r, i;
        vh_pause();
        mk_trans(&t, &S.coap_server); inet_ntop(COAP_IPV_AF_INET, &t.client_sin.COAP_IPV_SIN_ADDR, addr, sizeof addr);
        coap_msg_create(&req); coap_msg_create(&resp); coap_msg_set_type(&req, COAP_MSG_CON); coap_msg_set_type(&resp, COAP_MSG_ACK);
        unsigned det = rng_chance(&vc_rng, 1, 10) ? rng_range(&vc_rng, 1, 4) : COAP_MSG_POST;
        coap_msg_set_code(&req, COAP_MSG_REQ, det);
        int path = mk_path(&req, "client", "id");
        memset(pl, 0, sizeof pl);
        if (rng_chance(&vc_rng, 1, 12)) npl = 0;
        else if (rng_chance(&vc_rng, 1, 12)) { npl = rng_range(&vc_rng, 32, 300); for (size_t j = 0; j < npl; j++) pl[j] = 1 + rng_below(&vc_rng, 255); }
        else { rnd_id(pl); npl = strlen(pl); }
        int nul = npl > 0 && npl < 32 && k == ops - 1 && rng_chance(&vc_rng, 1, 4);
        if (nul) pl[rng_below(&vc_rng, npl)] = 0;
        if (npl && coap_msg_set_payload(&req, pl, npl) < 0) abort();
        vh_begin(heap_fail ? 1 : 0);
        vmem_reset();
        if (fail) vmem_fail_at = rng_below(&vc_rng, 4);
        long a0 = vmem_allocs;
        r = g_handle(&t, &req, &resp);
        int injected = (fail && vmem_allocs - a0 > vmem_fail_at) || vh_failed; vmem_fail_at = -1; vh_pause();
        unsigned want; const char *what;
        if (path == 1) { want = 0; what = "a path too long for it"; }
        else if (path == 2) { want = 404; what = "an unknown path"; }
        else if (det != COAP_MSG_POST) { want = 501; what = "a method it does not implement"; }
        else if (npl == 0) { want = 400; what = "an empty registration"; }
        else if (npl > 31) { want = 500; what = "an identifier too long for it"; }
        else { i = r_find(pl); want = i < 0 ? 201 : 204; what = i < 0 ? "a new client" : "a known client"; }
        h = vc_mix(h, want * 2 + injected);
        if (nul) { vc_count("ids_with_nul", 1); goto next; }
        if (want == 201 || want == 204)
        {
            if (injected)
            {
                vc_count("failures_injected", 1);
                if (r >= 0) V("failure-hidden", "an allocation failed while answering %s but the handler reported success", what);
                /* the client may have been registered before the answer failed: take what the registry says */
                i = r_find(pl);
                registrar_entry_t *e = registrar_find(&S.registrar, pl);
                if (e != NULL && i < 0 && nR < MAXR) { strcpy(R[nR].id, pl); strcpy(R[nR++].addr, addr); }
                else if (e != NULL && i >= 0 && strcmp(registrar_entry_get_addr(e), addr) == 0) strcpy(R[i].addr, addr);
            }
            else
            {
                if (r < 0) V("refused", "%s was refused: %d", what, r);
                else if (code_of(&resp) != want) V("wrong-code", "%s got %u instead of %u", what, code_of(&resp), want);
                else if (!pl_is(&resp, "OK", 2) || !same_path(&resp, "/client/id")) V("wrong-answer", "%s got an answer other than OK for /client/id", what);
                if (want == 201) { if (nR < MAXR) { strcpy(R[nR].id, pl); strcpy(R[nR++].addr, addr); } } else strcpy(R[r_find(pl)].addr, addr);
                vc_count(want == 201 ? "created" : "changed", 1);
            }
        }
        else if (want == 0) { if (r >= 0) V("long-path", "a request with %s was answered with %u", what, code_of(&resp)); vc_count("refused", 1); }
        else
        {
            if (r < 0) V("refused", "%s ended in the error %d instead of %u", what, r, want);
            else if (code_of(&resp) != want) V("wrong-code", "%s got %u instead of %u", what, code_of(&resp), want);
            vc_count("error_answers", 1);
        }
        r_check(&S.registrar, what);
    next:
        coap_msg_destroy(&req); coap_msg_destroy(&resp);
        if (vmem_live()) leaks(what);
    }
    vh_resume();
    reg_server_destroy(&S);
    if (vh_live() != 0) V("heap-leak", "%ld heap blocks still allocated after the server was destroyed", vh_live());
    vh_pause(); vh_on = 0; vh_forget();
    vc_distinct(vc_mix(h, nR));
    if (vc_want_sample()) vc_sample("%d requests, %d clients registered", ops, nR);
}
static void m_list(void)
{
    registrar_t g; uint64_t h = 0; char id[64], addr[64];
    begin(); nR = 0; vh_begin(0);
    registrar_create(&g);
    int ops = rng_range(&vc_rng, 1, 200), ids = rng_range(&vc_rng, 1, 12);
    for (int k = 0; k < ops && !vc_viol_in_case; k++)
    {
        unsigned o = rng_below(&vc_rng, 10); int i, r;
        if (rng_chance(&vc_rng, 1, 10)) rnd_id(id); else { id[0] = 'a' + rng_below(&vc_rng, ids); id[1] = 0; }
        i = r_find(id);
        h = vc_mix(h, o * 64 + id[0]);
        if (o < 5 && nR < MAXR)
        {
            int n = rng_chance(&vc_rng, 1, 2) ? rng_range(&vc_rng, 0, COAP_IPV_INET_ADDRSTRLEN - 1) : 7; rnd_seg(addr, n);
            r = registrar_add(&g, id, addr);
            if (r != (i < 0 ? 0 : 1)) V("add-result", "adding %s client returned %d", i < 0 ? "a new" : "a known", r);
            if (i < 0) { strcpy(R[nR].id, id); strcpy(R[nR++].addr, addr); } else strcpy(R[i].addr, addr);
            vc_count("additions", 1);
        }
        else if (o < 8)
        {
            r = registrar_del(&g, id);
            if (i < 0 ? r >= 0 : r != 0) V("del-result", "removing %s client returned %d", i < 0 ? "an unknown" : "a known", r);
            if (i >= 0) { memmove(&R[i], &R[i + 1], (nR - i - 1) * sizeof R[0]); nR--; vc_count("removals", 1); }
        }
        else
        {
            registrar_entry_t *e = registrar_find(&g, id);
            if ((e != NULL) != (i >= 0)) V("find", "looking up %s client %s", i < 0 ? "an unknown" : "a known", e ? "found one" : "found none");
            else if (e != NULL && strcmp(registrar_entry_get_addr(e), R[i].addr) != 0) V("find", "looking up a client gave another address");
        }
        r_check(&g, o < 5 ? "after an addition" : o < 8 ? "after a removal" : "after a look-up");
    }
    if (!vc_viol_in_case) registrar_destroy(&g);
    if (vh_live() != 0) V("heap-leak", "%ld heap blocks still allocated after the registry was destroyed", vh_live());
    vh_on = 0; vh_forget();
    vc_distinct(h);
}

/* ---------- time server ---------- */
static void m_time(void)
{
    static time_server_t S; coap_server_trans_t t; coap_msg_t req, resp; char want[64]; struct tm tm;
    begin();
    if (time_server_create(&S, "0.0.0.0", "1", "", "", "", "") < 0) { V("create", "the server cannot be created"); return; }
    mk_trans(&t, &S.coap_server);
    coap_msg_create(&req); coap_msg_create(&resp); coap_msg_set_type(&req, COAP_MSG_CON); coap_msg_set_type(&resp, COAP_MSG_ACK);
    unsigned det = rng_chance(&vc_rng, 1, 6) ? rng_range(&vc_rng, 1, 4) : COAP_MSG_GET;
    coap_msg_set_code(&req, COAP_MSG_REQ, det);
    int path = mk_path(&req, "time", NULL);
    if (rng_chance(&vc_rng, 1, 6)) { char p[100]; rng_bytes(&vc_rng, p, sizeof p); coap_msg_set_payload(&req, p, rng_range(&vc_rng, 1, 100)); }
    g_time = rng_chance(&vc_rng, 1, 2) ? (time_t)(rng_u64(&vc_rng) % 253402214400ull) : (time_t)(1700000000 + rng_below(&vc_rng, 300000000));
    localtime_r(&g_time, &tm); strftime(want, sizeof want, "%a %b %e %H:%M:%S %Y", &tm);
    int fail = rng_chance(&vc_rng, 1, 5); vmem_reset(); if (fail) vmem_fail_at = rng_below(&vc_rng, 3);
    int r = g_handle(&t, &req, &resp);
    int injected = fail && vmem_allocs > vmem_fail_at; vmem_fail_at = -1;
    if (path == 1) { if (r >= 0) V("long-path", "a request with a path too long for the server was answered"); }
    else if (path == 2 || det != COAP_MSG_GET)
    {
        unsigned w = path == 2 ? 404 : 501;
        if (r < 0 || code_of(&resp) != w) V("wrong-code", "an unacceptable request got %d, %u instead of %u", r, code_of(&resp), w);
        vc_count("error_answers", 1);
    }
    else if (injected) { if (r >= 0) V("failure-hidden", "an allocation failed but the handler reported success"); vc_count("failures_injected", 1); }
    else
    {
        if (r < 0 || code_of(&resp) != 205) V("wrong-code", "asking for the time got %d, %u", r, code_of(&resp));
        else if (!pl_is(&resp, want, strlen(want)) || !same_path(&resp, "/time")) V("wrong-time", "asking for the time got '%.*s' instead of '%s'", (int)coap_msg_get_payload_len(&resp), coap_msg_get_payload(&resp) ? coap_msg_get_payload(&resp) : "", want);
        vc_count("times", 1); vc_distinct(g_time);
        if (vc_want_sample()) vc_sample("%s", want);
    }
    coap_msg_destroy(&req); coap_msg_destroy(&resp); time_server_destroy(&S);
    leaks("the time server");
}

/* ---------- transfer server ---------- */
static void m_store(void)
{
    static transfer_server_t S; coap_server_trans_t t; coap_msg_t req, resp;
    begin();
    if (transfer_server_create(&S, "0.0.0.0", "1", "", "", "", "") < 0) { V("create", "the server cannot be created"); return; }
    mk_trans(&t, &S.coap_server);
    coap_msg_create(&req); coap_msg_create(&resp); coap_msg_set_type(&req, COAP_MSG_CON); coap_msg_set_type(&resp, COAP_MSG_ACK);
    unsigned det = rng_chance(&vc_rng, 1, 6) ? rng_range(&vc_rng, 1, 4) : COAP_MSG_PUT;
    coap_msg_set_code(&req, COAP_MSG_REQ, det);
    int path = mk_path(&req, "client", "transfer");
    size_t n = rng_chance(&vc_rng, 1, 8) ? 0 : rng_range(&vc_rng, 1, rng_chance(&vc_rng, 1, 4) ? 8192 : 300), cap = n + rng_below(&vc_rng, 50) + 1;
    char *body = malloc(cap), *keep = malloc(cap); rng_bytes(&vc_rng, body, cap); memcpy(keep, body, cap);
    t.body = body; t.body_len = cap; t.body_end = n;
    char old[40]; rng_bytes(&vc_rng, old, sizeof old); file_set(old, sizeof old);                       /* a file from an earlier transfer */
    F.fail_open = rng_chance(&vc_rng, 1, 12);
    if (rng_chance(&vc_rng, 1, 6)) F.fail_after = rng_below(&vc_rng, n + 1);
    int r = g_handle(&t, &req, &resp);
    if (F.opens != F.closes) V("file-open", "%d files opened but %d closed", F.opens, F.closes);
    if (path == 1 && det == COAP_MSG_PUT) { if (r >= 0) V("long-path", "a request with a path too long for the server was answered"); }
    else if (path != 0 || det != COAP_MSG_PUT)
    {
        unsigned w = det != COAP_MSG_PUT ? 501 : 404;
        if (r < 0 || code_of(&resp) != w) V("wrong-code", "an unacceptable request got %d, %u instead of %u", r, code_of(&resp), w);
        if (F.opens || g_rx_calls) V("stored-unasked", "an unacceptable request stored something");
        vc_count("error_answers", 1);
    }
    else if (F.fail_open || (F.fail_after >= 0 && (size_t)F.fail_after < n))
    {
        if (r < 0 || code_of(&resp) != 500) V("failure-hidden", "the body of %zu bytes could not be saved but the answer was %d, %u", n, r, code_of(&resp));
        vc_count("failed_saves", 1);
    }
    else
    {
        if (r < 0 || code_of(&resp) != 204) V("wrong-code", "saving %zu bytes got %d, %u", n, r, code_of(&resp));
        else if (F.opens != 1 || strcmp(F.name, "out") != 0) V("wrong-file", "%d files written, the last one '%s'", F.opens, F.name);
        else if (F.len != n || (n && memcmp(F.data, keep, n) != 0)) V("wrong-content", "the file holds %zu bytes other than the %zu of the body", F.len, n);
        vc_count("saves", 1); vc_distinct(vc_hash(keep, n, n));
        if (vc_want_sample()) vc_sample("saved %zu bytes", n);
    }
    coap_msg_destroy(&req); coap_msg_destroy(&resp); transfer_server_destroy(&S);
    free(body); free(keep);
    leaks("the transfer server");
}

/* ---------- clients ---------- */
static void m_clients(void)
{
    begin();
    unsigned who = rng_below(&vc_rng, 3); int r; char host[] = "h";
    static reg_client_t rc; static time_client_t tc; static transfer_client_t fc;
    const char *path = who == 0 ? "/client/id" : who == 1 ? "/time" : "/client/transfer", *okpl = "OK";
    { char *b = X.body; memset(&X, 0, sizeof X); X.body = b; }
    /* the answer */
    static const unsigned okc[] = { 201, 204, 205 };
    unsigned code = rng_chance(&vc_rng, 5, 6) ? okc[who == 1 ? (rng_chance(&vc_rng, 1, 8) ? 0 : 2) : rng_below(&vc_rng, rng_chance(&vc_rng, 1, 8) ? 3 : 2)] : rng_range(&vc_rng, 2, 5) * 100 + rng_below(&vc_rng, 32);
    X.cls = code / 100; X.det = code % 100;
    if (rng_chance(&vc_rng, 1, 8)) X.ret = -(int)rng_range(&vc_rng, 1, 110);
    int pk = rng_below(&vc_rng, 10), path_ok = 1;
    if (who != 2)
    {
        if (pk < 7) { if (who == 0) { X.seg[0] = (seg_t){ 11, 6, "client" }; X.seg[1] = (seg_t){ 11, 2, "id" }; X.nseg = 2; } else { X.seg[0] = (seg_t){ 11, 4, "time" }; X.nseg = 1; } }
        else if (pk == 7) { path_ok = 0; X.nseg = rng_range(&vc_rng, 1, 8); for (int i = 0; i < X.nseg; i++) { X.seg[i].num = 11; X.seg[i].len = rng_below(&vc_rng, 66); rnd_seg(X.seg[i].val, X.seg[i].len); } }
        else if (pk == 8) path_ok = 0;
        else { path_ok = 0; X.seg[0] = (seg_t){ 11, 6, "client" }; X.seg[1] = (seg_t){ 11, 3, "idx" }; X.nseg = rng_range(&vc_rng, 1, 2); }
    }
    X.has_pl = !rng_chance(&vc_rng, 1, 10);
    if (X.has_pl)
    {
        if (who == 0 && !rng_chance(&vc_rng, 1, 5)) { X.npl = 2; memcpy(X.pl, okpl, 2); }
        else { X.npl = rng_range(&vc_rng, 1, rng_chance(&vc_rng, 1, 3) ? 300 : 24); for (size_t i = 0; i < X.npl; i++) X.pl[i] = 1 + rng_below(&vc_rng, 255); }
    }
    if (X.has_pl && who == 0 && rng_chance(&vc_rng, 1, 8))
    {
        static const char *near[] = { "O", "K", "OKK", "ok", "OK ", "KO", "Ok" };
        strcpy(X.pl, near[rng_below(&vc_rng, 7)]); X.npl = strlen(X.pl);
    }
    int fail = rng_chance(&vc_rng, 1, 8);
    g_create_ret = rng_chance(&vc_rng, 1, 40) ? -ECONNREFUSED : 0;
    r = who == 0 ? reg_client_create(&rc, host, "1", "", "", "", "", "") : who == 1 ? time_client_create(&tc, host, "1", "", "", "", "", "") : transfer_client_create(&fc, host, "1", "", "", "", "", "");
    if (g_create_ret < 0) { if (r >= 0) V("create", "creating the client succeeded although connecting failed"); vc_count("failed_creates", 1); return; }
    if (r < 0) { V("create", "the client cannot be created"); return; }
    vmem_reset(); if (fail) vmem_fail_at = rng_below(&vc_rng, 4);
    if (who != 2)
    {
        size_t len = rng_chance(&vc_rng, 1, 3) ? rng_range(&vc_rng, 2, 40) : 128; char *buf = malloc(len), idb[128]; memset(buf, 0x55, len);
        if (who == 0) { size_t n = rng_range(&vc_rng, 1, (int)len - 1); rnd_seg(buf, n); strcpy(idb, buf); }
        r = who == 0 ? reg_client_register(&rc, buf, len) : time_client_get_time(&tc, buf, len);
        int injected = fail && vmem_allocs > vmem_fail_at && X.calls == 0; vmem_fail_at = -1;
        if (injected) { if (r >= 0) V("failure-hidden", "an allocation failed but the client reported success"); vc_count("failures_injected", 1); }
        else if (X.calls != 1 || X.blockwise) V("exchanges", "the client performed %d exchanges", X.calls);
        else
        {
            if (X.type != COAP_MSG_CON || X.code != (who == 0 ? 2u : 1u) || strcmp(X.path, path) != 0 || X.other_ops) V("wrong-request", "the client sent type %u, code %u to '%s'", X.type, X.code, X.path);
            if (who == 0 ? (X.nbody != strlen(idb) || memcmp(X.body, idb, X.nbody) != 0) : X.nbody != 0) V("wrong-request", "the client sent %zu bytes of payload", X.nbody);
            int good = X.ret >= 0 && path_ok && X.npl + 1 <= len && (who == 0 ? (code == 201 || code == 204) && X.npl == 2 && memcmp(X.pl, "OK", 2) == 0 : code == 205);
            if (!good) { if (r >= 0) V("bad-accepted", "the client took %s for success", X.ret < 0 ? "a failed exchange" : "an unexpected answer"); vc_count("bad_answers", 1); }
            else
            {
                if (r != (int)X.npl || memcmp(buf, X.pl, X.npl) != 0 || buf[X.npl] != 0) V("wrong-result", "the client returned %d and other bytes than the %zu of the answer", r, X.npl);
                vc_count("good_answers", 1); vc_distinct(vc_hash(X.pl, X.npl, len));
            }
        }
        free(buf);
        if (who == 0) reg_client_destroy(&rc); else time_client_destroy(&tc);
    }
    else
    {
        size_t n = rng_chance(&vc_rng, 1, 8) ? 0 : rng_range(&vc_rng, 1, rng_chance(&vc_rng, 1, 4) ? 9000 : 300);
        char *data = malloc(n + 1); rng_bytes(&vc_rng, data, n + 1); file_set(data, n);
        F.fail_open = rng_chance(&vc_rng, 1, 12);
        if (rng_chance(&vc_rng, 1, 8)) F.fail_after = rng_below(&vc_rng, n + 1);
        int rd_fail = F.fail_open || (F.fail_after >= 0 && (size_t)F.fail_after < n), hf = rng_chance(&vc_rng, 1, 16);
        vh_begin(hf ? 1 : 0);
        r = transfer_client_execute(&fc, "in");
        int heap_failed = vh_failed; long hl = vh_live(); vh_on = 0; vh_forget();
        int injected = fail && vmem_allocs > vmem_fail_at && X.calls == 0 && !rd_fail; vmem_fail_at = -1;
        if (hl) V("heap-leak", "%ld heap blocks still allocated after the transfer", hl);
        if (F.opens != F.closes) V("file-open", "%d files opened but %d closed", F.opens, F.closes);
        if (rd_fail || injected || heap_failed)
        {
            if (r >= 0) V("failure-hidden", "%s but the client reported success", rd_fail ? "the file could not be read" : "an allocation failed");
            if (X.calls) V("sent-anyway", "something was sent although the file could not be read");
            vc_count("failures_injected", 1);
        }
        else if (X.calls != 1 || !X.blockwise) V("exchanges", "the client performed %d transfers", X.calls);
        else
        {
            if (X.type != COAP_MSG_CON || X.code != 3 || strcmp(X.path, path) != 0 || X.other_ops) V("wrong-request", "the client sent type %u, code %u to '%s'", X.type, X.code, X.path);
            if (X.nbody != n || (n && memcmp(X.body, data, n) != 0)) V("wrong-request", "the client sent %zu bytes other than the %zu of the file", X.nbody, n);
            if (X.ret < 0) { if (r >= 0) V("bad-accepted", "the transfer failed with %d but the client reported success", X.ret); vc_count("bad_answers", 1); }
            else { if (r < 0) V("wrong-result", "the transfer succeeded but the client reported %d", r); vc_count("transfers", 1); vc_distinct(vc_hash(data, n, n)); }
        }
        free(data);
        transfer_client_destroy(&fc);
    }
    leaks(who == 0 ? "the registration client" : who == 1 ? "the time client" : "the transfer client");
}

int main(int c, char **v)
{
    static const vc_mode_t m[] = {
        {"reg", m_reg, "random request histories to the registration server; distinct outcome sequences"},
        {"list", m_list, "random addition, removal and look-up histories over the registrar; distinct operation sequences"},
        {"time", m_time, "random requests to the time server at random times; distinct times"},
        {"store", m_store, "random requests and bodies to the transfer server, with failing files; distinct bodies"},
        {"clients", m_clients, "the three sample clients against random answers and failures; distinct results"}, {0, 0, 0}};
    if (reg_server_init() < 0) return 2;
    return vc_main(c, v, m);
}
