/* CoAP message library under ASan/UBSan (or MSan): differential and model-based monitors. */
#include <errno.h>
#include "vc.h"
#include "refcoap.h"
#include "vmem.h"
#include "coap_msg.h"
#include "coap_mem.h"

#define MED 1152
static rmsg_t RM, RM2;
static void pools(size_t sn, size_t sl, size_t mn, size_t ml)
{
    coap_mem_all_destroy();
    if (coap_mem_all_create(sn, sl, mn, ml, 8, 64) != 0) abort();
    vmem_reset();
}
static void pools_default(void) { static int d; if (!d) { pools(2048, 256, 2048, MED); d = 1; } vmem_reset(); }
static void leak_check(const char *key, const char *what, const void *b, size_t n)
{
    if (vmem_live() || vmem_bad_frees)
    {
        vc_viol(key, "%s: live buffers %ld/%ld/%ld, frees to the wrong pool or twice %ld; input %s", what,
                vmem_live_pool(0), vmem_live_pool(1), vmem_live_pool(2), vmem_bad_frees, vc_hex(b, n));
        vmem_drop_all(); vmem_bad_frees = 0;
    }
}
/* exact-ended buffer: the byte after [p, p+n) is an ASan redzone even when n is 0 */
static char *exact(const void *src, size_t n, char **base)
{
    *base = malloc(16 + n);
    if (n && src) memcpy(*base + 16, src, n);
    return *base + 16;
}
/* does an API message equal the reference message? returns NULL or what differs */
static const char *differs(coap_msg_t *m, const rmsg_t *r)
{
    coap_msg_op_t *op; unsigned i = 0;
    if (coap_msg_get_ver(m) != 1) return "version";
    if (coap_msg_get_type(m) != r->type) return "type";
    if (coap_msg_get_code_class(m) != r->cls) return "code class";
    if (coap_msg_get_code_detail(m) != r->det) return "code detail";
    if (coap_msg_get_msg_id(m) != r->mid) return "message id";
    if (coap_msg_get_token_len(m) != r->tkl) return "token length";
    if (memcmp(coap_msg_get_token(m), r->tok, r->tkl)) return "token";
    for (op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op), i++)
    {
        if (i >= r->nops) return "too many options";
        if (coap_msg_op_get_num(op) != r->ops[i].num) return "option number";
        if (coap_msg_op_get_len(op) != r->ops[i].len) return "option length";
        if (r->ops[i].len && memcmp(coap_msg_op_get_val(op), r->ops[i].val, r->ops[i].len)) return "option value";
    }
    if (i != r->nops) return "too few options";
    if (coap_msg_get_payload_len(m) != r->plen) return "payload length";
    if (r->plen && memcmp(coap_msg_get_payload(m), r->payload, r->plen)) return "payload";
    return NULL;
}
static int num_ok(const rmsg_t *r) { return r->nops == 0 || r->ops[r->nops - 1].num <= 65535; }
/* decode one input and compare; medium: slot length in force */
static int check_parse(const uint8_t *b, size_t n, size_t medium, int reuse)
{
    coap_msg_t m; char *base, *p; int ref, fits = 1; unsigned i; ssize_t ret; const char *d;
    ref = r_decode(&RM, b, n);
    if (ref == REF_OK)
    {
        for (i = 0; i < RM.nops; i++) if (RM.ops[i].len > medium) fits = 0;
        if (RM.plen > medium) fits = 0;
        if (!num_ok(&RM)) fits = -1;
    }
    p = exact(b, n, &base);
    coap_msg_create(&m);
    if (reuse)
    {   /* a message object that already holds content must not leak into the result */
        char v[3] = "xyz";
        coap_msg_set_token(&m, "oldtoken", 8);
        coap_msg_add_op(&m, 11, 3, v); coap_msg_set_payload(&m, "old payload", 11);
    }
    ret = coap_msg_parse(&m, p, n);
    if (n && memcmp(p, b, n)) vc_viol("parse-modifies-input", "input %s", vc_hex(b, n));
    if (ret == 0)
    {
        vc_count("decoded", 1);
        if (ref != REF_OK) vc_viol("parse-accepts-malformed", "reference verdict %d, input (%zu bytes) %s", ref, n, vc_hex(b, n));
        else if (!fits) vc_viol("parse-accepts-oversize", "input %s", vc_hex(b, n));
        else if ((d = differs(&m, &RM))) vc_viol("parse-wrong-content", "%s differs, input (%zu bytes) %s", d, n, vc_hex(b, n));
    }
    else
    {
        vc_count("refused", 1);
        if (ret > 0) vc_viol("parse-return", "returned %zd", ret);
        if (ref == REF_OK && fits > 0) vc_viol("parse-refuses-wellformed", "returned %zd, input (%zu bytes) %s", ret, n, vc_hex(b, n));
    }
    coap_msg_destroy(&m);
    free(base);
    leak_check("parse-leak", "after decoding and destroying", b, n);
    vc_distinct(vc_hash(b, n, 7));
    return ref;
}
/* ---------- generators ---------- */
static const unsigned edge_len[] = {0, 1, 2, 7, 8, 11, 12, 13, 14, 15, 100, 140, 141, 255, 256, 267, 268, 269, 270, 271, 300, 500, 524, 525, 526};
static const unsigned edge_delta[] = {0, 1, 2, 4, 11, 12, 13, 14, 15, 35, 60, 100, 140, 141, 142, 255, 256, 267, 268, 269, 270, 271, 400, 524, 525, 526, 1000, 5000, 33037, 60000, 65535};
static unsigned g_len(rng_t *r) { return rng_chance(r, 1, 3) ? edge_len[rng_below(r, sizeof edge_len / 4)] : rng_chance(r, 1, 12) ? rng_below(r, 1200) : rng_below(r, 20); }
static unsigned g_delta(rng_t *r) { return rng_chance(r, 1, 2) ? edge_delta[rng_below(r, sizeof edge_delta / 4)] : rng_chance(r, 1, 10) ? rng_below(r, 70000) : rng_below(r, 16); }
static void gen_msg(rng_t *r, rmsg_t *m, unsigned maxops, size_t medium)
{
    static uint8_t tmp[70000]; static const unsigned cl[] = {0, 0, 0, 2, 2, 4, 5};
    unsigned num = 0, i, k;
    r_init(m);
    m->type = rng_below(r, 4); m->mid = rng_chance(r, 1, 4) ? (unsigned[]){0, 1, 255, 256, 65535, 0x8000}[rng_below(r, 6)] : rng_below(r, 65536);
    m->cls = cl[rng_below(r, 7)]; m->det = rng_below(r, 32);
    if (rng_chance(r, 1, 12)) { m->cls = m->det = 0; if (rng_chance(r, 3, 4)) return; }
    m->tkl = rng_below(r, 9); rng_bytes(r, m->tok, m->tkl);
    if (m->type == 3 && rng_chance(r, 3, 4)) m->type = rng_below(r, 3);
    k = rng_chance(r, 1, 5) ? 0 : rng_chance(r, 1, 10) ? rng_below(r, maxops + 1) : rng_below(r, 6);
    for (i = 0; i < k; i++)
    {
        unsigned l = g_len(r);
        if (l > medium && rng_chance(r, 9, 10)) l %= 14;
        num += g_delta(r);
        if (num > 65535) break;
        rng_bytes(r, tmp, l);
        if (r_append(m, num, tmp, l) < 0) break;
    }
    if (rng_chance(r, 1, 2))
    {
        m->plen = rng_chance(r, 1, 4) ? rng_below(r, medium + 3) : rng_below(r, 40);
        rng_bytes(r, tmp, m->plen);
        if (m->plen && rng_chance(r, 1, 3)) tmp[rng_below(r, m->plen)] = 0xff;
        m->payload = r_store(m, tmp, m->plen);
    }
}
static uint8_t wire[140000], wire2[140000];
/* well-formed and mutated messages */
static void run_parse(void)
{
    rng_t *r = &vc_rng; size_t n, i; int k, ref;
    pools_default();
    gen_msg(r, &RM2, 60, MED);
    n = r_encode(&RM2, wire);
    if (n > 3000) n = 3000;
    ref = check_parse(wire, n, MED, rng_chance(r, 1, 4));
    if (ref == REF_OK && vc_want_sample() && RM2.nops > 1) vc_sample("well-formed %zu bytes, %u options: %s", n, RM2.nops, vc_hex(wire, n));
    for (k = 0; k < 12; k++)
    {
        size_t m = n;
        memcpy(wire2, wire, n);
        switch (rng_below(r, 6))
        {
        case 0: m = n ? rng_below(r, n) : 0; break;                                            /* truncate */
        case 1: for (i = 1 + rng_below(r, 3); i && m; i--) wire2[rng_below(r, m < 40 ? m : 40)] = rng_u64(r); break;
        case 2: if (m) wire2[rng_below(r, m)] ^= 1 << rng_below(r, 8); break;
        case 3: if (m > 4) { size_t at = 4 + rng_below(r, m - 4); wire2[at] = (uint8_t)((13 + rng_below(r, 3)) << 4 | (rng_chance(r, 1, 2) ? 13 + rng_below(r, 3) : rng_below(r, 16))); } break;
        case 4: i = 1 + rng_below(r, 6); rng_bytes(r, wire2 + m, i); m += i; break;             /* append */
        case 5: { size_t at = rng_below(r, m + 1); memmove(wire2 + at + 1, wire2 + at, m - at); wire2[at] = rng_chance(r, 1, 2) ? 0xff : rng_u64(r); m++; } break;
        }
        ref = check_parse(wire2, m, MED, rng_chance(r, 1, 8));
        if (ref != REF_OK && vc_want_sample()) vc_sample("mutant (reference refuses) %s", vc_hex(wire2, m));
    }
    if (vc_case % 8 == 0)
    {   /* small buffers: values larger than a pool buffer must be refused, others accepted */
        size_t med = 8 * (1 + rng_below(r, 12));
        pools(256, sizeof(coap_msg_op_t), 256, med);
        gen_msg(r, &RM2, 20, med);
        n = r_encode(&RM2, wire);
        check_parse(wire, n, med, 0);
        pools(2048, 256, 2048, MED);
    }
}
/* systematic: case = first two option bytes; tails of every interesting length */
static void run_parse_exh(void)
{
    static const unsigned tails[] = {0, 1, 2, 3, 4, 12, 13, 14, 15, 16, 80, 140, 141, 142, 143, 200, 268, 269, 270, 271, 272};
    static const uint8_t pre[][6] = {{0x40, 1, 0x12, 0x34}, {0x51, 0x45, 0xff, 0xfe, 0xab}, {0x60, 0, 0, 0}};
    static const uint8_t prel[] = {4, 5, 4};
    unsigned t, h, b0, b1; size_t n;
    pools_default();
    b0 = (vc_case >> 8) & 255; b1 = vc_case & 255;
    for (h = 0; h < 3; h++)
        for (t = 0; t < sizeof tails / 4; t++)
        {
            unsigned i;
            memcpy(wire, pre[h], prel[h]); n = prel[h];
            wire[n++] = b0;
            if (t == 0 && h == 0) check_parse(wire, n, MED, 0);
            wire[n++] = b1;
            for (i = 0; i < tails[t]; i++) wire[n++] = (uint8_t)(i * 37 + (vc_case & 63) + t);
            check_parse(wire, n, MED, 0);
        }
    /* the same two bytes as the first two header bytes, at every short length */
    for (n = 0; n <= 14; n++)
    {
        wire[0] = b0; wire[1] = b1; wire[2] = 0x80 | n; wire[3] = 0xff;
        for (t = 4; t < 14; t++) wire[t] = (uint8_t)(t * 16 + (t & 1));
        check_parse(wire, n, MED, 0);
    }
    vc_count("systematic", 1);
    if (vc_want_sample()) vc_sample("all tails for option bytes %02x %02x and header bytes %02x %02x", b0, b1, b0, b1);
}
/* parse_type_msg_id on every header */
static void run_hdr(void)
{
    char *base, *p; unsigned b0 = (unsigned)vc_case & 255, i;
    for (i = 0; i < 300; i++)
    {
        unsigned type = 99, id = 99999; size_t n = rng_below(&vc_rng, 8); int ret;
        rng_bytes(&vc_rng, wire, 8); wire[0] = b0;
        p = exact(wire, n, &base);
        ret = coap_msg_parse_type_msg_id(p, n, &type, &id);
        if ((ret == 0) != (n >= 4)) vc_viol("hdr-length", "len %zu ret %d", n, ret);
        else if (ret == 0 && (type != ((b0 >> 4) & 3) || id != wire[2] * 256u + wire[3])) vc_viol("hdr-value", "%s -> type %u id %u", vc_hex(wire, n), type, id);
        free(base);
        vc_distinct(vc_hash(wire, n, 3));
    }
}
/* build an API message from a reference message, adding options in a random order that keeps equal numbers in order */
static int build(coap_msg_t *m, const rmsg_t *r, rng_t *rng)
{
    unsigned i, j, left = r->nops; static unsigned char done[R_MAXOPS];
    memset(done, 0, sizeof done);
    if (coap_msg_set_type(m, r->type) || coap_msg_set_code(m, r->cls, r->det) || coap_msg_set_msg_id(m, r->mid)
     || coap_msg_set_token(m, (char *)r->tok, r->tkl)) return -1;
    while (left)
    {
        i = rng_below(rng, r->nops);
        while (done[i]) i = (i + 1) % r->nops;
        /* take the earliest pending option with this number */
        for (j = 0; j < r->nops; j++) if (!done[j] && r->ops[j].num == r->ops[i].num) { i = j; break; }
        if (coap_msg_add_op(m, r->ops[i].num, r->ops[i].len, (char *)r->ops[i].val)) return -1;
        done[i] = 1; left--;
    }
    if (coap_msg_set_payload(m, (char *)r->payload, r->plen)) return -1;
    return 0;
}
static void run_format(void)
{
    rng_t *r = &vc_rng; coap_msg_t m, back; size_t n, len, k, tries; char *base, *p; ssize_t ret; const char *d;
    pools_default();
    gen_msg(r, &RM, 12, MED);
    if (RM.plen > MED) RM.plen = MED;
    for (k = 0; k < RM.nops; k++) if (RM.ops[k].len > MED) RM.ops[k].len = 5;
    n = r_encode(&RM, wire);
    coap_msg_create(&m);
    if (build(&m, &RM, r)) { vc_viol("build", "legal values refused while building"); coap_msg_destroy(&m); vmem_drop_all(); return; }
    if ((d = differs(&m, &RM))) vc_viol("build-content", "%s differs after building", d);
    tries = n < 40 ? n + 4 : 24;
    for (k = 0; k < tries; k++)
    {
        if (n < 40) len = k;
        else len = k < 8 ? n - 4 + k : k < 16 ? (size_t)rng_below(r, n) : n + rng_below(r, 50);
        p = exact(NULL, len, &base);
        memset(base, 0x5a, 16 + len);
        ret = coap_msg_format(&m, p, len);
        for (size_t i = 0; i < 16; i++) if (base[i] != 0x5a) { vc_viol("format-underrun", "wrote before the buffer"); break; }
        if (!r_legal(&RM))
        {
            vc_count("illegal", 1);
            if (ret >= 0) vc_viol("format-accepts-illegal", "type %u code %u.%02u tkl %u nops %u plen %zu", RM.type, RM.cls, RM.det, RM.tkl, RM.nops, RM.plen);
        }
        else if (len >= n)
        {
            vc_count("encoded", 1);
            if (ret != (ssize_t)n) vc_viol("format-length", "returned %zd, needs %zu, buffer %zu; expect %s", ret, n, len, vc_hex(wire, n));
            else if (memcmp(p, wire, n)) vc_viol("format-bytes", "got %s expect %s", vc_hex(p, n), vc_hex(wire, n));
            else
            {
                for (size_t i = n; i < len; i++) if (p[i] != 0x5a) { vc_viol("format-overrun", "byte %zu beyond the encoding of length %zu was written (buffer %zu)", i, n, len); break; }
                coap_msg_create(&back);
                ret = coap_msg_parse(&back, p, n);
                if (RM.cls == 1 || RM.cls == 3 || RM.cls >= 6) {}
                else if (ret != 0) vc_viol("roundtrip", "decoding own encoding returned %zd: %s", ret, vc_hex(p, n));
                else if ((d = differs(&back, &RM))) vc_viol("roundtrip-content", "%s: %s", d, vc_hex(p, n));
                coap_msg_destroy(&back);
            }
        }
        else
        {
            vc_count("too_small", 1);
            if (ret >= 0) vc_viol("format-accepts-small-buffer", "returned %zd, needs %zu, buffer %zu", ret, n, len);
        }
        free(base);
    }
    if ((d = differs(&m, &RM))) vc_viol("format-modifies", "%s differs after formatting", d);
    if (vc_want_sample() && RM.nops > 1) vc_sample("%zu-byte encoding tried with %zu buffer lengths: %s", n, tries, vc_hex(wire, n));
    vc_distinct(vc_hash(wire, n, 9));
    coap_msg_destroy(&m);
    leak_check("format-leak", "after formatting", wire, n);
}
/* ---------- model-based histories of message operations ---------- */
typedef struct { coap_msg_t m; rmsg_t *r; int live; } mm_t;
static void check_uri(coap_msg_t *m, rmsg_t *r, rng_t *rng)
{
    static char full[70000]; size_t n = 0, len, ret; char *base, *p; unsigned i, any = 0;
    for (i = 0; i < r->nops; i++)
        if (r->ops[i].num == 11) { any = 1; full[n++] = '/'; memcpy(full + n, r->ops[i].val, r->ops[i].len); n += r->ops[i].len; }
    if (!any) full[n++] = '/';
    len = rng_chance(rng, 1, 3) ? n + rng_below(rng, 4) : rng_below(rng, n + 10);
    p = exact(NULL, len, &base); memset(base, 0x33, 16 + len);
    ret = coap_msg_uri_path_to_str(m, p, len);
    if (len == 0) { if (ret != 0) {} }
    else
    {
        size_t k = n < len - 1 ? n : len - 1;
        if (ret != n && !(len == 1 && !any)) vc_viol("uri-path-length", "returned %zu, full length %zu, buffer %zu", ret, n, len);
        if (memcmp(p, full, k) || p[k] != 0) vc_viol("uri-path-string", "buffer %zu got %s expect %s", len, vc_hex(p, len), vc_hex(full, n));
    }
    free(base);
    vc_count("uri_path", 1);
}
static void run_build(void)
{
    rng_t *r = &vc_rng; static rmsg_t store[3]; mm_t x[3]; int i, steps, s, ret; uint64_t h = 5; const char *d; char *base, *p; unsigned k;
    pools_default();
    for (i = 0; i < 3; i++) { x[i].r = &store[i]; r_init(x[i].r); coap_msg_create(&x[i].m); }
    steps = 5 + rng_below(r, 40);
    for (s = 0; s < steps; s++)
    {
        mm_t *a = &x[rng_below(r, 3)], *b; unsigned op = rng_below(r, 16), v, v2, l; char tmp[1300];
        switch (op)
        {
        case 0: v = rng_chance(r, 1, 4) ? 4 + rng_below(r, 5000) : rng_below(r, 4);
            ret = coap_msg_set_type(&a->m, v);
            if ((ret == 0) != (v < 4)) vc_viol("set-type", "%u -> %d", v, ret);
            if (ret == 0) a->r->type = v;
            break;
        case 1: v = rng_below(r, rng_chance(r, 1, 4) ? 300 : 8); v2 = rng_below(r, rng_chance(r, 1, 4) ? 300 : 32);
            ret = coap_msg_set_code(&a->m, v, v2);
            if ((ret == 0) != (v < 8 && v2 < 32)) vc_viol("set-code", "%u.%u -> %d", v, v2, ret);
            if (ret == 0) { a->r->cls = v; a->r->det = v2; }
            break;
        case 2: v = rng_chance(r, 1, 3) ? (unsigned[]){0, 65535, 65536, 65537, 0x10000000, 0xffffffff}[rng_below(r, 6)] : rng_below(r, 70000);
            ret = coap_msg_set_msg_id(&a->m, v);
            if ((ret == 0) != (v < 65536)) vc_viol("set-msg-id", "%u -> %d", v, ret);
            if (ret == 0) a->r->mid = v;
            break;
        case 3: l = rng_below(r, rng_chance(r, 1, 4) ? 20 : 9); rng_bytes(r, tmp, l);
            p = exact(tmp, l, &base);
            ret = coap_msg_set_token(&a->m, p, l);
            if ((ret == 0) != (l <= 8)) vc_viol("set-token", "len %u -> %d", l, ret);
            if (ret == 0) { a->r->tkl = l; memcpy(a->r->tok, tmp, l); }
            free(base);
            break;
        case 4: case 5: case 6: case 7: case 8:
            v = rng_chance(r, 1, 2) ? (unsigned[]){1, 3, 4, 7, 8, 11, 11, 11, 12, 14, 15, 15, 17, 23, 27, 60}[rng_below(r, 16)] : rng_chance(r, 1, 8) ? rng_below(r, 65536) : rng_below(r, 40);
            l = rng_chance(r, 1, 16) ? 1100 + rng_below(r, 100) : rng_chance(r, 1, 4) ? rng_below(r, 300) : rng_below(r, 12);
            rng_bytes(r, tmp, l);
            if (v == 11 && rng_chance(r, 3, 4)) for (k = 0; k < l; k++) tmp[k] = 'a' + (tmp[k] & 15);
            p = exact(tmp, l, &base);
            ret = coap_msg_add_op(&a->m, v, l, p);
            if ((ret == 0) != (l <= MED)) vc_viol("add-op", "num %u len %u -> %d", v, l, ret);
            if (ret == 0) r_add(a->r, v, tmp, l);
            free(base);
            break;
        case 9: case 10:
            l = rng_chance(r, 1, 10) ? 1100 + rng_below(r, 100) : rng_below(r, 60); rng_bytes(r, tmp, l);
            p = exact(tmp, l, &base);
            ret = coap_msg_set_payload(&a->m, p, l);
            if ((ret == 0) != (l <= MED)) vc_viol("set-payload", "len %u -> %d", l, ret);
            if (ret == 0) { a->r->plen = l; a->r->payload = l ? r_store(a->r, tmp, l) : NULL; }
            else { a->r->plen = coap_msg_get_payload_len(&a->m); if (a->r->plen) vc_viol("set-payload-failed", "payload length %zu after a refused payload", a->r->plen); }
            free(base);
            break;
        case 11: coap_msg_clear_payload(&a->m); a->r->plen = 0; a->r->payload = NULL; break;
        case 12: coap_msg_reset(&a->m); r_init(a->r); break;
        case 13: case 14: b = &x[rng_below(r, 3)];
            if (a == b) break;
            coap_msg_reset(&b->m);
            ret = coap_msg_copy(&b->m, &a->m);
            if (ret != 0) { vc_viol("copy", "returned %d", ret); break; }
            r_init(b->r);
            b->r->type = a->r->type; b->r->cls = a->r->cls; b->r->det = a->r->det; b->r->mid = a->r->mid; b->r->tkl = a->r->tkl; memcpy(b->r->tok, a->r->tok, 8);
            for (k = 0; k < a->r->nops; k++) r_append(b->r, a->r->ops[k].num, a->r->ops[k].val, a->r->ops[k].len);
            b->r->plen = a->r->plen; b->r->payload = a->r->plen ? r_store(b->r, a->r->payload, a->r->plen) : NULL;
            vc_count("copies", 1);
            /* storage must be disjoint */
            {
                coap_msg_op_t *oa, *ob;
                for (oa = coap_msg_get_first_op(&a->m), ob = coap_msg_get_first_op(&b->m); oa && ob; oa = coap_msg_op_get_next(oa), ob = coap_msg_op_get_next(ob))
                    if (oa == ob || coap_msg_op_get_val(oa) == coap_msg_op_get_val(ob)) vc_viol("copy-shares", "copy shares option storage");
                if (a->r->plen && coap_msg_get_payload(&a->m) == coap_msg_get_payload(&b->m)) vc_viol("copy-shares", "copy shares the payload");
            }
            break;
        case 15: check_uri(&a->m, a->r, r); break;
        }
        h = vc_mix(h, op * 1000 + (uint64_t)(a - x));
        vc_count("operations", 1);
        for (i = 0; i < 3; i++)
            if ((d = differs(&x[i].m, x[i].r))) { vc_viol("history-content", "%s of message %d differs after step %d (operation kind %u)", d, i, s, op); goto out; }
        for (i = 0; i < 3; i++) if (x[i].r->used > 60000) goto out;
    }
    if (vc_want_sample()) vc_sample("history of %d operations over 3 messages; message 0 ended with %u options, payload %zu", steps, x[0].r->nops, x[0].r->plen);
out:
    for (i = 0; i < 3; i++) { check_uri(&x[i].m, x[i].r, r); coap_msg_destroy(&x[i].m); }
    vc_distinct(h);
    leak_check("history-leak", "after a history", "", 0);
}
/* ---------- block options and option classes: exhaustive ---------- */
static void run_block(void)
{   /* case = top 12 bits of the 24-bit space */
    unsigned lo, num, more, size, rn, rm, rs; char *base, *p; int ret, ref; uint8_t v[8];
    unsigned hi = (unsigned)vc_case & 0xfff;
    for (lo = 0; lo < 0x1000; lo++)
    {
        unsigned x = hi << 12 | lo;
        v[0] = x >> 16; v[1] = x >> 8; v[2] = x;
        ref = r_block_dec(v, 3, &rn, &rm, &rs);
        num = more = size = 77777;
        ret = coap_msg_op_parse_block_val(&num, &more, &size, (char *)v, 3);
        if ((ret == 0) != (ref == 0)) vc_viol("block-decode-verdict", "%s -> %d", vc_hex(v, 3), ret);
        else if (ret == 0 && (num != rn || more != rm || size != rs)) vc_viol("block-decode-value", "%s -> num %u more %u size %u", vc_hex(v, 3), num, more, size);
        if (ref == 0)
        {   /* encode the triple into 1, 2 and 3 bytes */
            unsigned len;
            for (len = 1; len <= 3; len++)
            {
                uint8_t o[3] = {0, 0, 0}; unsigned lim = len == 1 ? 16 : len == 2 ? 4096 : 1u << 20, a, b, c;
                p = exact(NULL, len, &base);
                ret = coap_msg_op_format_block_val(p, len, rn, rm ? 1 + lo % 5 : 0, rs);
                if ((ret == (int)len) != (rn < lim) || (ret != (int)len && ret >= 0)) vc_viol("block-encode-verdict", "num %u size %u into %u bytes -> %d", rn, rs, len, ret);
                else if (ret > 0)
                {
                    memcpy(o, p, len);
                    if (r_block_dec(o, len, &a, &b, &c) || a != rn || b != rm || c != rs) vc_viol("block-encode-value", "num %u more %u size %u -> %s", rn, rm, rs, vc_hex(o, len));
                }
                free(base);
            }
        }
        vc_distinct(vc_mix(0xb10c, x));
    }
    vc_count("block3", 4096);
    for (lo = 0; lo < 24; lo++)
    {   /* shorter and longer values, exact-ended buffers */
        unsigned len = lo % 8; unsigned x = (hi << 4) | lo;
        v[0] = len == 1 ? x : x >> 8; v[1] = x; v[2] = x >> 3; v[3] = 1; v[4] = 2; v[5] = v[6] = v[7] = 3;
        p = exact(v, len, &base);
        ref = r_block_dec(v, len, &rn, &rm, &rs); num = more = size = 77777;
        ret = coap_msg_op_parse_block_val(&num, &more, &size, p, len);
        if ((ret == 0) != (ref == 0)) vc_viol("block-short-verdict", "len %u %s -> %d", len, vc_hex(v, len), ret);
        else if (ret == 0 && (num != rn || more != rm || size != rs)) vc_viol("block-short-value", "len %u %s -> num %u more %u size %u", len, vc_hex(v, len), num, more, size);
        free(base);
    }
    for (lo = 0; lo < 16; lo++)
    {   /* sizes that are not block sizes, numbers out of range, odd buffer lengths */
        unsigned sz = rng_chance(&vc_rng, 1, 2) ? 1u << rng_below(&vc_rng, 13) : rng_below(&vc_rng, 3000), len = 1 + rng_below(&vc_rng, 6);
        unsigned nn = rng_chance(&vc_rng, 1, 2) ? (unsigned[]){0, 15, 16, 17, 4095, 4096, 4097, (1u << 20) - 1, 1u << 20, (1u << 20) + 1, 0xffffffff}[rng_below(&vc_rng, 11)] : (unsigned)rng_u64(&vc_rng) >> rng_below(&vc_rng, 32);
        unsigned szok = sz == 16 || sz == 32 || sz == 64 || sz == 128 || sz == 256 || sz == 512 || sz == 1024, e = 0;
        int want = szok && len <= 3 && nn < (len == 1 ? 16u : len == 2 ? 4096u : 1u << 20);
        while (szok && (16u << e) != sz) e++;
        if ((ret = coap_msg_op_calc_block_szx(sz)), (szok ? ret != (int)e : ret >= 0)) vc_viol("block-szx", "size %u -> %d", sz, ret);
        p = exact(NULL, len, &base);
        ret = coap_msg_op_format_block_val(p, len, nn, 0, sz);
        if ((ret > 0) != want) vc_viol("block-encode-range", "num %u size %u into %u bytes -> %d", nn, sz, len, ret);
        free(base);
        vc_count("block_range", 1);
    }
    if (vc_want_sample()) vc_sample("all 4096 three-byte block values 0x%03x000..fff decoded and re-encoded in 1..3 bytes", hi);
}
static void run_opclass(void)
{   /* case = 256 option numbers */
    coap_msg_t m; unsigned n, k, num, more, size; int ret; rng_t *r = &vc_rng;
    pools_default();
    for (k = 0; k < 256; k++)
    {
        unsigned ck, uk, other = 0, crit, uns; int before;
        n = ((unsigned)vc_case * 256 + k) & 0xffff;
        if (!!coap_msg_op_num_is_recognized(n) != r_recognised(n)) vc_viol("op-recognised", "%u", n);
        coap_msg_create(&m);
        before = rng_chance(r, 1, 2);
        for (int j = 0; j < (int)rng_below(r, 4); j++) { static const unsigned known[] = {1, 3, 4, 11, 12, 15, 17, 23, 27, 35, 39, 60}; coap_msg_add_op(&m, known[rng_below(r, 12)], 1, "x"); }
        if (before) coap_msg_add_op(&m, 2048 + 4 * rng_below(r, 3), 1, "e");  /* unknown elective safe */
        coap_msg_add_op(&m, n, 0, "");
        ck = coap_msg_check_critical_ops(&m); uk = coap_msg_check_unsafe_ops(&m);
        crit = (n & 1) && !r_recognised(n); uns = (n & 2) && !r_recognised(n);
        (void)other;
        if (ck != (crit ? n : 0)) vc_viol("critical", "option %u -> %u", n, ck);
        if (uk != (uns ? n : 0)) vc_viol("unsafe", "option %u -> %u", n, uk);
        coap_msg_destroy(&m);
        vc_distinct(vc_mix(0x0b, n));
    }
    /* several unknown options: one of them must be reported */
    for (k = 0; k < 64; k++)
    {
        unsigned want = 0, wantu = 0, got; unsigned long long mask = 0; unsigned nums[8], i, cnt = 1 + rng_below(r, 7);
        (void)mask;
        coap_msg_create(&m);
        for (i = 0; i < cnt; i++) { nums[i] = rng_chance(r, 1, 2) ? rng_below(r, 70) : rng_below(r, 65536); coap_msg_add_op(&m, nums[i], 2, "vv"); if (!r_recognised(nums[i])) { if (nums[i] & 1) want = 1; if (nums[i] & 2) wantu = 1; } }
        got = coap_msg_check_critical_ops(&m);
        if (!!got != want) vc_viol("critical-multi", "reported %u, expected %s", got, want ? "one" : "none");
        for (i = 0; got && i < cnt; i++) if (nums[i] == got && (got & 1) && !r_recognised(got)) break;
        if (got && i == cnt) vc_viol("critical-multi-number", "reported %u which is not an unknown critical option of the message", got);
        got = coap_msg_check_unsafe_ops(&m);
        if (!!got != wantu) vc_viol("unsafe-multi", "reported %u, expected %s", got, wantu ? "one" : "none");
        coap_msg_destroy(&m);
    }
    /* block options looked up in a message */
    for (k = 0; k < 64; k++)
    {
        uint8_t v1[4], v2[4]; unsigned l1 = rng_below(r, 5), l2 = rng_below(r, 5), a, b, c; int w1 = rng_chance(r, 2, 3), w2 = rng_chance(r, 2, 3), ref;
        coap_msg_create(&m);
        rng_bytes(r, v1, 4); rng_bytes(r, v2, 4);
        coap_msg_add_op(&m, 11, 3, "abc");
        if (w1) coap_msg_add_op(&m, COAP_MSG_BLOCK1, l1, (char *)v1);
        if (w2) coap_msg_add_op(&m, COAP_MSG_BLOCK2, l2, (char *)v2);
        num = more = size = 0;
        ret = coap_msg_parse_block_op(&num, &more, &size, &m, COAP_MSG_BLOCK1);
        ref = w1 ? r_block_dec(v1, l1, &a, &b, &c) : 1;
        if ((ref == 1) != (ret == 1) || (ref == 0) != (ret == 0)) vc_viol("block-op-verdict", "block1 len %u %s -> %d expected %d", l1, vc_hex(v1, l1), ret, ref);
        else if (ref == 0 && (a != num || b != more || c != size)) vc_viol("block-op-value", "block1 len %u %s -> %u/%u/%u", l1, vc_hex(v1, l1), num, more, size);
        ret = coap_msg_parse_block_op(&num, &more, &size, &m, COAP_MSG_BLOCK2);
        ref = w2 ? r_block_dec(v2, l2, &a, &b, &c) : 1;
        if ((ref == 1) != (ret == 1) || (ref == 0) != (ret == 0)) vc_viol("block-op-verdict", "block2 len %u %s -> %d expected %d", l2, vc_hex(v2, l2), ret, ref);
        else if (ref == 0 && (a != num || b != more || c != size)) vc_viol("block-op-value", "block2 len %u %s -> %u/%u/%u", l2, vc_hex(v2, l2), num, more, size);
        coap_msg_destroy(&m);
        vc_count("block_lookup", 1);
    }
    if (vc_want_sample()) vc_sample("option numbers %ld..%ld each alone and among known options", vc_case * 256, vc_case * 256 + 255);
    leak_check("opclass-leak", "options", "", 0);
}
/* ---------- allocation failures ---------- */
static void run_oom(void)
{
    rng_t *r = &vc_rng; coap_msg_t m, c; ssize_t ret; size_t n; long total, f; char *base, *p; const char *d; rng_t save; unsigned kind = rng_below(r, 3); int tot_fail = 0;
    pools_default();
    do gen_msg(r, &RM, 8, MED); while (!r_legal(&RM) || RM.plen > MED);
    for (n = 0; n < RM.nops; n++) if (RM.ops[n].len > MED) RM.ops[n].len = 5;
    n = r_encode(&RM, wire); p = exact(wire, n, &base); save = *r;
    /* reference run counts the allocation points */
    for (f = -1, total = 1; f < total; f++)
    {
        int rep;
        for (rep = 0; rep < (f < 0 ? 1 : 2); rep++)
        {
            vmem_reset(); *r = save;
            coap_msg_create(&m); coap_msg_create(&c);
            if (kind == 1) build(&c, &RM, r);           /* source for copying */
            vmem_allocs = 0;
            if (rep) vmem_fail_from = f; else vmem_fail_at = f;
            if (kind == 0) ret = coap_msg_parse(&m, p, n);
            else if (kind == 1) ret = coap_msg_copy(&m, &c);
            else ret = build(&m, &RM, r);
            if (f < 0)
            {
                total = vmem_allocs;
                if (ret < 0) { vc_viol("oom-baseline", "kind %u failed without injected failure: %zd", kind, ret); total = -5; }
            }
            else
            {
                tot_fail++; vc_count("injected_failures", 1);
                if (ret >= 0) vc_viol("oom-not-reported", "kind %u allocation %ld failed but the call succeeded", kind, f);
                if (kind == 1 && (d = differs(&c, &RM))) vc_viol("oom-source-changed", "copy failure changed the source: %s", d);
            }
            vmem_fail_at = vmem_fail_from = -1;
            coap_msg_destroy(&m); coap_msg_destroy(&c);
            leak_check("oom-leak", kind == 0 ? "decode with failing allocation" : kind == 1 ? "copy with failing allocation" : "build with failing allocation", wire, n);
            /* the object is reusable after the failure */
            coap_msg_create(&m);
            if (coap_msg_parse(&m, p, n) != 0 || differs(&m, &RM)) vc_viol("oom-after", "decoding fails after an earlier allocation failure");
            coap_msg_destroy(&m);
        }
    }
    free(base);
    vc_distinct(vc_hash(wire, n, kind + 11));
    if (vc_want_sample()) vc_sample("kind %s, %ld allocation points each failed once and from there on; message %s", kind == 0 ? "decode" : kind == 1 ? "copy" : "build", total, vc_hex(wire, n));
}
static const vc_mode_t modes[] = {
    {"parse", run_parse, "structure-aware generated messages plus 12 mutants each (truncate, byte/bit flips, extended-option nibbles, insertions); a case is non-trivial if its byte string is new"},
    {"parse_exh", run_parse_exh, "all 65536 pairs of option-header bytes (and of header bytes) with 21 tail lengths after 3 prefixes; distinct byte strings"},
    {"hdr", run_hdr, "header-only extraction for all first bytes; distinct byte strings"},
    {"format", run_format, "random messages encoded into every buffer length around the needed one; distinct encodings"},
    {"build", run_build, "random histories over three messages; distinct operation sequences"},
    {"block", run_block, "exhaustive over all 3-byte block values; distinct values"},
    {"opclass", run_opclass, "exhaustive over all option numbers, alone and mixed; distinct numbers"},
    {"oom", run_oom, "each allocation of decode/copy/build made to fail, once and persistently; distinct (operation, message) pairs"},
    {0, 0, 0}};
int main(int argc, char **argv)
{
    int rc = vc_main(argc, argv, modes);
    coap_mem_all_destroy(); vmem_drop_all();
    return rc;
}
