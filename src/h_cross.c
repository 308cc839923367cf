/* P26: HTTP/CoAP translation against an independent reading of the request URI, headers and status table. */
#include <errno.h>
#include <limits.h>
#include "vc.h"
#include "vheap.h"
#include "vmem.h"
#include "coap_mem.h"
#include "coap_msg.h"
#include "http_msg.h"
#include "cross.h"
#include "uriref.h"

typedef struct { unsigned num; int len; char val[4096]; } opt_t;
typedef struct { int n; opt_t o[260]; } optlist_t;
static optlist_t *W, *D, *G; /* faithful, decoded before splitting, given by the code */
static int big;              /* an option of 256 bytes or more: may be refused */

static void up(void)
{
    static int once;
    if (!once)
    {
        once = 1;
        coap_mem_all_create(4096, 256, 4096, 1024, 256, 8192);
        W = malloc(sizeof(*W));
        D = malloc(sizeof(*D));
        G = malloc(sizeof(*G));
    }
}
static void put(optlist_t *l, unsigned num, const char *v, int len)
{
    int i = l->n;
    if (l->n >= 260)
        return;
    while (i > 0 && l->o[i - 1].num > num)
    {
        l->o[i] = l->o[i - 1];
        i--;
    }
    l->o[i].num = num;
    l->o[i].len = len;
    memcpy(l->o[i].val, v, len);
    l->n++;
    if (len >= 256)
        big = 1;
}
/* options of a path or query: split at the delimiter, then decode each piece; or decode, then split */
static void pieces(optlist_t *l, unsigned num, const char *a, const char *b, char d, int decode)
{
    while (a <= b)
    {
        const char *z = a;
        char t[4096];
        while (z < b && *z != d)
            z++;
        if (z > a)
        {
            if (decode)
            {
                dec(t, a, z);
                put(l, num, t, strlen(t));
            }
            else
                put(l, num, a, z - a);
        }
        a = z + 1;
    }
}
static void given(coap_msg_t *m)
{
    G->n = 0;
    for (coap_msg_op_t *o = coap_msg_get_first_op(m); o; o = coap_msg_op_get_next(o))
    {
        if (G->n < 260 && coap_msg_op_get_len(o) < 4096)
        {
            G->o[G->n].num = coap_msg_op_get_num(o);
            G->o[G->n].len = coap_msg_op_get_len(o);
            memcpy(G->o[G->n].val, coap_msg_op_get_val(o), coap_msg_op_get_len(o));
            G->n++;
        }
    }
}
/* -1: equal, else the first option that differs; empty Uri-Port options are not looked at */
static int differ(optlist_t *a, optlist_t *b)
{
    int i = 0, j = 0;
    for (;; i++, j++)
    {
        while (i < a->n && a->o[i].num == COAP_MSG_URI_PORT && a->o[i].len == 0)
            i++;
        while (j < b->n && b->o[j].num == COAP_MSG_URI_PORT && b->o[j].len == 0)
            j++;
        if (i == a->n && j == b->n)
            return -1;
        if (i == a->n || j == b->n || a->o[i].num != b->o[j].num || a->o[i].len != b->o[j].len)
            return i;
        if (a->o[i].num == COAP_MSG_URI_HOST ? strncasecmp(a->o[i].val, b->o[j].val, a->o[i].len) : memcmp(a->o[i].val, b->o[j].val, a->o[i].len))
            return i;
    }
}

/* ---------------------------------------------------------------- HTTP request to CoAP request */
static int sl, wild;
static void pc(char c) { if (sl < 1800) S[sl++] = c; S[sl] = 0; }
static void ps(const char *s) { while (*s) pc(*s++); }
static void piece(const char *alpha, int max)
{
    int n = rng_chance(&vc_rng, 1, 60) ? rng_range(&vc_rng, 200, 300) : rng_below(&vc_rng, max + 1);
    while (n-- > 0)
    {
        int k = rng_below(&vc_rng, 24);
        if (k < 2)
        {
            int c = rng_chance(&vc_rng, 1, 4) ? "/?#:@[]%&= \"<"[rng_below(&vc_rng, 13)] : rng_range(&vc_rng, 1, 255);
            char b[8];
            sprintf(b, rng_chance(&vc_rng, 1, 2) ? "%%%02X" : "%%%02x", c & 255);
            ps(b);
        }
        else if (k == 2 && wild)
            pc(rng_chance(&vc_rng, 1, 2) ? "?#:@[]%=\"<"[rng_below(&vc_rng, 10)] : rng_range(&vc_rng, 33, 255));
        else
            pc(alpha[rng_below(&vc_rng, strlen(alpha))]);
    }
}
static void gen_uri(void)
{
    sl = 0;
    S[0] = 0;
    wild = rng_chance(&vc_rng, 1, 6);
    int k = rng_below(&vc_rng, 24);
    ps(k < 10 ? "coaps:" : k < 18 ? "coap:" : k == 18 ? "COAP:" : k == 19 ? "CoapS:" : k == 20 ? "http:" : k == 21 ? "" : k == 22 ? "coapx:" : "coaps:");
    if (rng_chance(&vc_rng, 11, 12))
    {
        ps("//");
        if (rng_chance(&vc_rng, 1, 10))
            ps("user@");
        if (rng_chance(&vc_rng, 1, 5))
            ps("[::1]");
        else
            piece("abcXYZ019-._~", 10);
        if (rng_chance(&vc_rng, 3, 4))
        {
            pc(':');
            piece("0123456789", 5);
        }
    }
    for (int n = rng_range(&vc_rng, 0, 4); n > 0; n--)
    {
        pc('/');
        if (rng_chance(&vc_rng, 7, 8))
            piece("abcXYZ019-._~!$&'()*+,;=:@", 8);
    }
    if (rng_chance(&vc_rng, 1, 2))
    {
        pc('?');
        for (int n = rng_range(&vc_rng, 0, 4); n > 0; n--)
        {
            piece("abcXYZ019-._~!$'()*+,;=:@/?", 8);
            if (n > 1 || rng_chance(&vc_rng, 1, 6))
                pc('&');
        }
    }
    if (rng_chance(&vc_rng, 1, 16))
    {
        pc('#');
        piece("abc", 3);
    }
    if (wild && sl > 0 && rng_chance(&vc_rng, 1, 3))
        S[rng_below(&vc_rng, sl)] = "/?#:@[]%&=ab"[rng_below(&vc_rng, 12)];
}
static int codes[8], ncodes;
static void may(int c) { codes[ncodes++] = c; }
static void m_req(void)
{
    static const char *const METH[] = { "GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "get", "PATCH", "G" };
    static const int CODE[] = { COAP_MSG_GET, COAP_MSG_POST, COAP_MSG_PUT, COAP_MSG_DELETE };
    static char body[12000];
    coap_msg_t cm;
    http_msg_t hm;
    int meth = rng_chance(&vc_rng, 1, 8) ? rng_below(&vc_rng, 9) : rng_below(&vc_rng, 4), bn, cap, oom = !strcmp(vc_mode, "req_oom");
    long total = 0;
    up();
    big = 0;
    ncodes = 0;
    W->n = D->n = 0;
    gen_uri();
    /* what the request asks for */
    reference(S);
    int nojudge = loose;
    if (meth >= 4)
        may(501);
    if (bad || has[FRAG] || !has[SCHEME] || (strcasecmp(R[SCHEME], "coap") && strcasecmp(R[SCHEME], "coaps")) || (R[PATH][0] && R[PATH][0] != '/'))
        may(400);
    else if (!loose)
    {
        if (has[HOST] && R[HOST][0])
            put(W, COAP_MSG_URI_HOST, R[HOST], strlen(R[HOST]));
        if (has[PORT])
            put(W, COAP_MSG_URI_PORT, R[PORT], strlen(R[PORT]));
        *D = *W;
        if (has[PATH] && RA[PATH] < RB[PATH])
        {
            pieces(W, COAP_MSG_URI_PATH, RA[PATH] + 1, RB[PATH], '/', 1);
            pieces(D, COAP_MSG_URI_PATH, R[PATH] + 1, R[PATH] + strlen(R[PATH]), '/', 0);
        }
        if (has[QUERY])
        {
            pieces(W, COAP_MSG_URI_QUERY, RA[QUERY], RB[QUERY], '&', 1);
            pieces(D, COAP_MSG_URI_QUERY, R[QUERY], R[QUERY] + strlen(R[QUERY]), '&', 0);
        }
    }
    vh_forget();
    vh_begin(0);
    vmem_reset();
    http_msg_create(&hm);
    coap_msg_create(&cm);
    http_msg_set_start(&hm, METH[meth], S, "HTTP/1.1");
    for (int n = rng_below(&vc_rng, 4); n > 0; n--)
    {
        char v[400];
        int k = rng_below(&vc_rng, 8), len;
        if (k == 0)
        {
            len = rng_chance(&vc_rng, 1, 10) ? rng_range(&vc_rng, 200, 300) : rng_below(&vc_rng, 10);
            for (int i = 0; i < len; i++)
                v[i] = rng_range(&vc_rng, 33, 126);
            v[len] = 0;
            http_msg_set_header(&hm, (const char *[]){ "ETag", "Etag", "etag", "ETAG" }[rng_below(&vc_rng, 4)], v);
            put(W, COAP_MSG_ETAG, v, len);
            put(D, COAP_MSG_ETAG, v, len);
        }
        else if (k == 1)
        {
            unsigned age = rng_chance(&vc_rng, 1, 4) ? rng_u64(&vc_rng) : rng_below(&vc_rng, 100000);
            char t[40];
            sprintf(t, "%u", age);
            sprintf(v, "%smax-age=%s%s", rng_chance(&vc_rng, 1, 3) ? "no-cache, " : "", t, rng_chance(&vc_rng, 1, 3) ? ", public" : "");
            http_msg_set_header(&hm, (const char *[]){ "Cache-Control", "cache-control", "CACHE-CONTROL" }[rng_below(&vc_rng, 3)], v);
            put(W, COAP_MSG_MAX_AGE, t, strlen(t));
            put(D, COAP_MSG_MAX_AGE, t, strlen(t));
        }
        else if (k == 2)
            http_msg_set_header(&hm, "Cache-Control", rng_chance(&vc_rng, 1, 2) ? "no-store" : "max-age=x");
        else if (k == 3)
        {
            http_msg_set_header(&hm, rng_chance(&vc_rng, 1, 2) ? "Accept" : "ACCEPT", rng_chance(&vc_rng, 1, 2) ? "text/plain" : "Text/Plain");
            put(W, COAP_MSG_ACCEPT, "0", 1);
            put(D, COAP_MSG_ACCEPT, "0", 1);
        }
        else if (k == 4 && rng_chance(&vc_rng, 1, 3))
        {
            http_msg_set_header(&hm, "accept", (const char *[]){ "application/json", "*/*", "text/html", "text/plai", "text/plaim", "tex/plain", "plain/text", "text/", "" }[rng_below(&vc_rng, 9)]);
            may(406);
        }
        else
            http_msg_set_header(&hm, "Host", "x");
    }
    bn = rng_chance(&vc_rng, 1, 3) ? 0 : rng_chance(&vc_rng, 1, 3) ? rng_below(&vc_rng, 60) : rng_chance(&vc_rng, 1, 2) ? rng_range(&vc_rng, 1015, 1035) : rng_below(&vc_rng, 10000);
    cap = rng_chance(&vc_rng, 1, 3) ? bn - rng_below(&vc_rng, 3) : 8192;
    if (cap < 0)
        cap = 0;
    rng_bytes(&vc_rng, body, bn);
    if (bn || rng_chance(&vc_rng, 1, 2))
        http_msg_set_body(&hm, body, bn);
    if (bn > COAP_MSG_MAX_PAYLOAD_LEN && bn > cap)
        may(502);
    vh_pause();
    char *cb = malloc(cap ? cap : 1);
    vh_resume();
    long live0 = vh_live();
    for (long k = 0; k <= (oom ? 2 * total : 0) && k < 60; k++)
    {
        unsigned code = 12345;
        size_t end = 0;
        int ret;
        coap_msg_set_type(&cm, rng_below(&vc_rng, 4));
        if (oom)
        {
            /* allocations are failed in turn: the heap's, then the pools' */
            vmem_reset();
            vh_begin(k <= total ? k : 0);
            vmem_fail_at = k > total ? k - total - 1 : -1;
        }
        ret = cross_req_http_to_coap(&cm, cb, cap, &end, &hm, &code);
        vh_fail_at = 0;
        int failed = vh_failed || (oom && k > total && vmem_allocs > k - total - 1);
        vmem_fail_at = -1;
        if (k == 0)
            total = vh_num > vmem_allocs ? vh_num : vmem_allocs;
        if (oom && failed)
        {
            vc_count("allocation_failures", 1);
            if (ret >= 0)
                vc_viol("oom-unreported", "an allocation failed unnoticed: %s", S);
            else if (code != 400 && code != 406 && code != 500 && code != 501 && code != 502)
                vc_viol("wrong-status", "refused with status %u", code);
        }
        else if (nojudge)
            vc_count("not_judged", 1);
        else if (ncodes)
        {
            int ok = 0;
            for (int i = 0; i < ncodes; i++)
                ok |= (int)code == codes[i];
            if (big && code == 502)
                ok = 1;
            if (ret >= 0)
                vc_viol("accepts-wrongly", "%s %s with %d bytes of body translated, should be refused with %d", METH[meth], S, bn, codes[0]);
            else if (!ok)
                vc_viol("wrong-status", "%s %s refused with %u, should be %d", METH[meth], S, code, codes[0]);
            vc_count("refused", 1);
        }
        else if (ret < 0)
        {
            if (!big)
                vc_viol("refuses-wrongly", "%s %s with %d bytes of body refused (%d, %u)", METH[meth], S, bn, ret, code);
            vc_count("too_long", 1);
        }
        else
        {
            int d;
            if (coap_msg_get_type(&cm) != COAP_MSG_CON || coap_msg_get_code_class(&cm) != COAP_MSG_REQ || (int)coap_msg_get_code_detail(&cm) != CODE[meth])
                vc_viol("wrong-method", "%s became type %d code %d.%d", METH[meth], coap_msg_get_type(&cm), coap_msg_get_code_class(&cm), coap_msg_get_code_detail(&cm));
            given(&cm);
            d = differ(W, G);
            if (d >= 0)
            {
                if (differ(D, G) < 0)
                    vc_note("encoded-delimiter-split", "an encoded '/' or '&' splits the option: %s", S);
                else
                    vc_viol("wrong-options", "%s: option %d is %u \"%.*s\", should be %u \"%.*s\" (%d of %d options)", S, d, d < G->n ? G->o[d].num : 0, d < G->n ? G->o[d].len : 0, d < G->n ? G->o[d].val : "",
                            d < W->n ? W->o[d].num : 0, d < W->n ? W->o[d].len : 0, d < W->n ? W->o[d].val : "", G->n, W->n);
            }
            vc_count("options", G->n);
            if (bn > COAP_MSG_MAX_PAYLOAD_LEN)
            {
                if (end != (size_t)bn || memcmp(cb, body, bn) || coap_msg_get_payload_len(&cm))
                    vc_viol("wrong-body", "a body of %d bytes became %zu in the blockwise buffer and %u of payload", bn, end, coap_msg_get_payload_len(&cm));
                vc_count("large_bodies", 1);
            }
            else
            {
                if (end != 0 || coap_msg_get_payload_len(&cm) != (unsigned)bn || (bn && memcmp(coap_msg_get_payload(&cm), body, bn)))
                    vc_viol("wrong-body", "a body of %d bytes became %u of payload and %zu in the blockwise buffer", bn, (unsigned)coap_msg_get_payload_len(&cm), end);
                vc_count("small_bodies", 1);
            }
            vc_count("translated", 1);
        }
        if (vc_viol_in_case)
            break;
    }
    coap_msg_destroy(&cm);
    if (vh_live() != live0)
        vc_viol("leak", "%ld blocks left by a translation: %s", vh_live() - live0, S);
    http_msg_destroy(&hm);
    vh_pause();
    free(cb);
    if (vmem_live() || vmem_bad_frees)
    {
        vc_viol("pool-leak", "%ld pool buffers left, %ld bad frees: %s", vmem_live(), vmem_bad_frees, S);
        vmem_drop_all();
    }
    vc_distinct(vc_hash(S, strlen(S), meth * 100 + bn));
    if (vc_want_sample())
        vc_sample("%s %s body %d: %d options", METH[meth], vc_hex(S, sl > 60 ? 60 : sl), bn, W->n);
}

/* ---------------------------------------------------------------- CoAP response to HTTP response */
static const char *status_of(int c, int d)
{
    switch (c * 100 + d)
    {
    case 201: case 202: case 204: case 205: return "200";
    case 203: return "304";
    case 400: case 402: return "400";
    case 401: return "401";
    case 403: return "403";
    case 404: return "404";
    case 405: return "405";
    case 406: return "406";
    case 412: return "412";
    case 413: return "413";
    case 415: return "415";
    case 500: return "500";
    case 501: case 505: return "501";
    case 502: return "502";
    case 503: return "503";
    case 504: return "504";
    }
    return NULL;
}
static const char *hdr(http_msg_t *m, const char *name, int *n)
{
    const char *v = NULL;
    *n = 0;
    for (http_msg_header_t *h = http_msg_get_first_header(m); h; h = h->next)
        if (!strcasecmp(h->name, name))
        {
            v = h->value;
            (*n)++;
        }
    return v;
}
static void m_resp(void)
{
    static char body[9000], pay[1024], out[16000];
    int known[][2] = { { 2, 1 }, { 2, 2 }, { 2, 3 }, { 2, 4 }, { 2, 5 }, { 4, 0 }, { 4, 1 }, { 4, 2 }, { 4, 3 }, { 4, 4 }, { 4, 5 }, { 4, 6 }, { 4, 12 }, { 4, 13 }, { 4, 15 }, { 5, 0 }, { 5, 1 }, { 5, 2 }, { 5, 3 }, { 5, 4 }, { 5, 5 } };
    coap_msg_t cm;
    http_msg_t hm, back;
    int cls, det, pn = 0, bn = 0, n, etag = 0, age = 0, acc = 0, oom = !strcmp(vc_mode, "resp_oom"), odd = 0;
    char et[300] = "", ag[40] = "";
    long total = 0;
    const char *want, *v;
    up();
    big = 0;
    if (rng_chance(&vc_rng, 1, 6))
    {
        cls = rng_below(&vc_rng, 8);
        det = rng_below(&vc_rng, 32);
    }
    else
    {
        int k = rng_below(&vc_rng, 21);
        cls = known[k][0];
        det = known[k][1];
    }
    want = status_of(cls, det);
    vh_forget();
    vh_begin(0);
    vmem_reset();
    coap_msg_create(&cm);
    http_msg_create(&hm);
    coap_msg_set_code(&cm, cls, det);
    for (n = rng_below(&vc_rng, 5); n > 0; n--)
    {
        char t[400];
        int k = rng_below(&vc_rng, 8), len;
        if (k == 0)
        {
            int pr = rng_chance(&vc_rng, 1, 2);
            len = rng_chance(&vc_rng, 1, 12) ? rng_range(&vc_rng, 250, 262) : rng_below(&vc_rng, 9);
            for (int i = 0; i < len; i++)
                t[i] = pr ? rng_range(&vc_rng, 33, 126) : rng_chance(&vc_rng, 1, 3) ? "\r\n:\0 a"[rng_below(&vc_rng, 6)] : (char)rng_u64(&vc_rng);
            coap_msg_add_op(&cm, COAP_MSG_ETAG, len, t);
            if (len >= 256)
                big = 1;
            if (pr && !etag && len > 0 && len < 256)
            {
                memcpy(et, t, len);
                et[len] = 0;
            }
            etag += pr && len > 0 ? 1 : 100;
        }
        else if (k == 1)
        {
            unsigned a = rng_chance(&vc_rng, 1, 4) ? rng_u64(&vc_rng) : rng_below(&vc_rng, 100000);
            sprintf(ag, "%u", a);
            coap_msg_add_op(&cm, COAP_MSG_MAX_AGE, strlen(ag), ag);
            age++;
        }
        else if (k == 2)
        {
            coap_msg_add_op(&cm, COAP_MSG_ACCEPT, 1, "0");
            acc++;
        }
        else
        {
            unsigned nums[] = { COAP_MSG_MAX_AGE, COAP_MSG_ACCEPT, COAP_MSG_CONTENT_FORMAT, COAP_MSG_LOCATION_PATH, COAP_MSG_SIZE1, COAP_MSG_BLOCK2, 2000, COAP_MSG_ETAG };
            unsigned num = nums[rng_below(&vc_rng, 8)];
            len = rng_chance(&vc_rng, 1, 20) ? rng_range(&vc_rng, 250, 300) : rng_below(&vc_rng, 12);
            rng_bytes(&vc_rng, t, len);
            coap_msg_add_op(&cm, num, len, t);
            if (len >= 256)
                big = 1;
            if (num == COAP_MSG_MAX_AGE)
                age += 100;
            if (num == COAP_MSG_ACCEPT)
                acc += 100;
            if (num == COAP_MSG_ETAG)
                etag += 100;
        }
    }
    if (rng_chance(&vc_rng, 2, 3))
    {
        pn = rng_chance(&vc_rng, 1, 3) ? COAP_MSG_MAX_PAYLOAD_LEN - rng_below(&vc_rng, 3) : rng_range(&vc_rng, 1, 100);
        rng_bytes(&vc_rng, pay, pn);
        coap_msg_set_payload(&cm, pay, pn);
    }
    if (rng_chance(&vc_rng, 1, 3))
    {
        bn = rng_range(&vc_rng, 1, 8192);
        rng_bytes(&vc_rng, body, bn);
    }
    vh_pause();
    char *cb = malloc(bn ? bn : 1);
    memcpy(cb, body, bn);
    vh_resume();
    long live0 = vh_live(), pl0 = vmem_live();
    const char *wb = bn ? body : pay;
    int wn = bn ? bn : pn;
    for (long k = 0; k <= (oom ? total : 0) && k < 60; k++)
    {
        unsigned code = 12345;
        if (rng_chance(&vc_rng, 1, 3))
        {
            http_msg_set_start(&hm, "OLD", "x", "y");
            http_msg_set_header(&hm, "Old", "header");
            http_msg_set_body(&hm, "old", 3);
        }
        vh_begin(oom ? k : 0);
        int ret = cross_resp_coap_to_http(&hm, &cm, cb, bn, &code);
        vh_fail_at = 0;
        if (k == 0)
            total = vh_num;
        if (vh_failed)
        {
            vc_count("allocation_failures", 1);
            if (ret >= 0)
                vc_viol("oom-unreported", "allocation %ld failed unnoticed", k);
            else if (code != 502 && code != 500)
                vc_viol("wrong-status", "refused with %u", code);
        }
        else if (want == NULL)
        {
            if (ret >= 0)
                vc_viol("accepts-wrongly", "code %d.%02d became %s", cls, det, http_msg_get_start(&hm, 1));
            else if (code != 502)
                vc_viol("wrong-status", "code %d.%02d refused with %u", cls, det, code);
            vc_count("refused", 1);
        }
        else if (ret < 0)
        {
            if (!big)
                vc_viol("refuses-wrongly", "code %d.%02d with %d bytes refused (%d)", cls, det, wn, ret);
            else if (code != 502)
                vc_viol("wrong-status", "refused with %u", code);
            vc_count("too_long", 1);
        }
        else
        {
            if (strcmp(http_msg_get_start(&hm, 0), "HTTP/1.1") || strcmp(http_msg_get_start(&hm, 1), want) || !http_msg_get_start(&hm, 2)[0])
                vc_viol("wrong-status", "code %d.%02d became %s, should be %s", cls, det, http_msg_get_start(&hm, 1), want);
            if (hdr(&hm, "Old", &n) || n)
                vc_viol("stale-header", "a header of the previous message remains");
            v = hdr(&hm, "ETag", &n);
            if (etag == 1 && et[0] && (n != 1 || strcmp(v, et)))
                vc_viol("wrong-etag", "ETag \"%s\" became \"%s\"", et, v ? v : "(none)");
            if (etag == 0 && n)
                vc_viol("wrong-etag", "an ETag header appeared");
            v = hdr(&hm, "Cache-Control", &n);
            if (age == 1 && (n != 1 || strncmp(v, "max-age=", 8) || strcmp(v + 8, ag)))
                vc_viol("wrong-max-age", "Max-Age %s became \"%s\"", ag, v ? v : "(none)");
            if (age == 0 && n)
                vc_viol("wrong-max-age", "a Cache-Control header appeared");
            v = hdr(&hm, "Content-Length", &n);
            if (n > 1 || (wn && (n != 1 || strtol(v, NULL, 10) != wn)) || (!wn && n && strtol(v, NULL, 10)))
                vc_viol("wrong-content-length", "%d Content-Length headers, \"%s\" for %d bytes", n, v ? v : "(none)", wn);
            if (http_msg_get_body_len(&hm) != (size_t)wn || (wn && memcmp(http_msg_get_body(&hm), wb, wn)))
                vc_viol("wrong-body", "a body of %d bytes became %zu", wn, http_msg_get_body_len(&hm));
            /* on the wire it is one message with these headers and this body */
            size_t gl = http_msg_generate(&hm, out, sizeof(out));
            int nh = 0, nb = 0;
            http_msg_create(&back);
            ssize_t used = gl < sizeof(out) ? http_msg_parse(&back, out, gl) : -1;
            for (http_msg_header_t *h = http_msg_get_first_header(&hm); h; h = h->next)
                nh++;
            for (http_msg_header_t *h = http_msg_get_first_header(&back); h; h = h->next)
                nb++;
            if (used != (ssize_t)gl || nh != nb || back.body_len != (size_t)wn || (wn && memcmp(back.body, wb, wn)))
                vc_viol("not-one-message", "the response of %zu bytes is read as %zd bytes, %d of %d headers, body %zu of %d: %s", gl, used, nb, nh, back.body_len, wn, vc_hex(out, gl > 200 ? 200 : gl));
            http_msg_destroy(&back);
            vc_count("translated", 1);
            vc_count(bn ? "blockwise_bodies" : pn ? "payloads" : "empty", 1);
            vc_count("headers", nh);
        }
        if (vc_viol_in_case)
            break;
    }
    (void)odd;
    http_msg_destroy(&hm);
    if (vh_live() != live0 || vmem_live() != pl0)
        vc_viol("leak", "%ld blocks left by a translation", vh_live() - live0);
    coap_msg_destroy(&cm);
    vh_pause();
    free(cb);
    if (vmem_live() || vmem_bad_frees)
    {
        vc_viol("pool-leak", "%ld pool buffers left", vmem_live());
        vmem_drop_all();
    }
    vc_distinct(vc_mix(cls * 32 + det + wn * 1024, etag * 10000 + age * 100 + acc));
    if (vc_want_sample())
        vc_sample("%d.%02d with %d bytes: %s", cls, det, wn, want ? want : "refused");
}

/* ---------------------------------------------------------------- CoAP URI to HTTP URI */
static void m_uri(void)
{
    coap_msg_t cm;
    int odd = rng_chance(&vc_rng, 1, 4), npath = 0, nq = 0, lp = 0, lq = 0, host = rng_chance(&vc_rng, 9, 10), port = rng_chance(&vc_rng, 3, 4), esc = 0;
    char t[400];
    static char full[8000];
    up();
    W->n = 0;
    vh_forget();
    vh_begin(0);
    vmem_reset();
    coap_msg_create(&cm);
    for (int k = 0; k < 4; k++)
    {
        unsigned num = k == 0 ? COAP_MSG_URI_HOST : k == 1 ? COAP_MSG_URI_PORT : k == 2 ? COAP_MSG_URI_PATH : COAP_MSG_URI_QUERY;
        int cnt = k == 0 ? host : k == 1 ? port : rng_below(&vc_rng, 4);
        while (cnt-- > 0)
        {
            int len = rng_chance(&vc_rng, 1, 12) ? rng_range(&vc_rng, 60, 260) : rng_range(&vc_rng, 1, 10);
            for (int i = 0; i < len; i++)
            {
                t[i] = k == 1 ? '0' + rng_below(&vc_rng, 10) : odd && rng_chance(&vc_rng, 1, 4) ? rng_range(&vc_rng, 1, 255) : "abcXYZ019-._~!$'()*+,;=:@? "[rng_below(&vc_rng, k == 0 ? 13 : 27)];
                if (odd && rng_chance(&vc_rng, 1, 30))
                    t[i] = 0;
                if (t[i] == '%' || t[i] == 0 || (unsigned char)t[i] == 255 || (k == 2 && t[i] == '/') || (k == 3 && t[i] == '&') || (k == 0 && !odd && t[i] == '~' && 0))
                    esc = 1;
            }
            t[len] = 0;
            coap_msg_add_op(&cm, num, len, t);
            put(W, num, t, len);
            if (k == 2) { npath++; lp += len + 1; }
            if (k == 3) { nq++; lq += len + 1; }
            if (len > 255) { lp += k == 2 ? 1000 : 0; }
        }
    }
    int longop = lp > 255 || lq > 255;
    for (int i = 0; i < W->n; i++)
        if (W->o[i].len > 255)
            longop = 1;
    memset(full, 'Z', sizeof(full));
    int ret = cross_uri_coap_to_http(full, sizeof(full), &cm);
    if (ret < 0)
    {
        if (!longop && !esc)
            vc_viol("refuses-wrongly", "a URI of %d path and %d query options is refused (%d)", npath, nq, ret);
        vc_count("refused", 1);
    }
    else if (memchr(full, 0, sizeof(full)) == NULL)
        vc_viol("unterminated", "unterminated URI");
    else if (strlen(full) < 4000)
    {
        strcpy(S, full);
        reference(S);
        G->n = 0;
        if (has[HOST] && R[HOST][0])
            put(G, COAP_MSG_URI_HOST, R[HOST], strlen(R[HOST]));
        if (has[PORT])
            put(G, COAP_MSG_URI_PORT, R[PORT], strlen(R[PORT]));
        if (has[PATH] && RA[PATH] < RB[PATH])
            pieces(G, COAP_MSG_URI_PATH, RA[PATH] + 1, RB[PATH], '/', 1);
        if (has[QUERY])
            pieces(G, COAP_MSG_URI_QUERY, RA[QUERY], RB[QUERY], '&', 1);
        int d = loose || bad ? 0 : differ(W, G);
        if (d >= 0 || !has[SCHEME] || strcmp(R[SCHEME], "coaps") || has[FRAG] || has[USER])
        {
            if (esc)
                vc_note("option-value-not-escaped", "a percent sign or delimiter inside an option value is not escaped: %s", S);
            else
                vc_viol("wrong-uri", "option %d of %d is lost in %s", d, W->n, S);
        }
        vc_count("uris", 1);
        size_t n = strlen(full);
        for (int i = 0; i < 4; i++)
        {
            size_t len = i == 0 ? n : i == 1 ? n + 1 : i == 2 ? rng_below(&vc_rng, n + 2) : rng_below(&vc_rng, 3);
            vh_pause();
            char *b = malloc(len ? len : 1);
            vh_resume();
            memset(b, 'Z', len ? len : 1);
            ret = cross_uri_coap_to_http(b, len, &cm);
            if (len > n ? ret != 0 || strcmp(b, full) : ret >= 0)
                vc_viol("wrong-bound", "buffer of %zu for %zu characters: %d", len, n, ret);
            if (len == 0 && b[0] != 'Z')
                vc_viol("beyond-buffer", "an empty buffer was written to");
            vc_count(len > n ? "fits" : "too_small", 1);
            vh_pause();
            free(b);
            vh_resume();
        }
    }
    /* failing allocations */
    for (long k = 1; k <= 6; k++)
    {
        long l0 = vh_live();
        vh_begin(k);
        ret = cross_uri_coap_to_http(full, sizeof(full), &cm);
        vh_fail_at = 0;
        if (vh_failed && ret >= 0)
            vc_viol("oom-unreported", "allocation %ld failed unnoticed", k);
        vc_count("allocation_failures", vh_failed);
        if (vh_live() != l0)
            vc_viol("leak", "%ld blocks left", vh_live() - l0);
    }
    coap_msg_destroy(&cm);
    vh_pause();
    if (vh_live() || vmem_live())
        vc_viol("leak", "%ld blocks left", vh_live());
    vc_distinct(vc_hash(full, strnlen(full, sizeof(full)), 77));
}
/* the texts of the statuses the proxy itself produces */
static void m_text(void)
{
    static const struct { unsigned c; const char *t; } X[] = { { 400, "Bad Request" }, { 406, "Not Acceptable" }, { 500, "Internal Server Error" }, { 501, "Not Implemented" }, { 502, "Bad Gateway" } };
    for (int i = 0; i < 5; i++)
        if (strcmp(cross_http_resp_code_to_str(X[i].c), X[i].t))
            vc_viol("wrong-text", "%u is \"%s\"", X[i].c, cross_http_resp_code_to_str(X[i].c));
    for (unsigned c = 0; c < 1000; c++)
        if (!cross_http_resp_code_to_str(c) || strpbrk(cross_http_resp_code_to_str(c), "\r\n"))
            vc_viol("wrong-text", "%u", c);
    vc_count("texts", 1000);
    vc_distinct(1);
}
static const vc_mode_t MODES[] = {
    { "req", m_req, "HTTP requests to CoAP: method, Uri options, headers, body, refusals with status" },
    { "req_oom", m_req, "the same with every heap and pool allocation failing in turn" },
    { "resp", m_resp, "CoAP responses to HTTP: status, headers, body, one message on the wire" },
    { "resp_oom", m_resp, "the same with every allocation failing in turn" },
    { "uri", m_uri, "CoAP URI options to an HTTP URI and bounds" },
    { "text", m_text, "status texts" },
    { NULL, NULL, NULL } };
int main(int argc, char **argv) { return vc_main(argc, argv, MODES); }
