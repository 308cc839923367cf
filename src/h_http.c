/* P22, P23: HTTP message parsing and generation against an independent line-by-line reading. */
#include <errno.h>
#include <limits.h>
#include "vc.h"
#include "vheap.h"
#include "http_msg.h"

#define MAXM 400000
static char B[MAXM];
static int bl;

/* ---------------------------------------------------------------- reference */
enum { OK, AGAIN, BAD, AGAIN_OR_BAD, LOOSE };
static char r_start[3][MAXM], r_body[MAXM];
static struct { char name[MAXM], value[MAXM]; } *RH;
static int nRH, r_blen, r_used;
static int loose;

static int is_ws(int c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\v' || c == '\f'; }
static int crlf(int p, int end)
{
    for (; p + 1 < end; p++)
        if (B[p] == '\r' && B[p + 1] == '\n')
            return p;
    return -1;
}
static void squeeze(char *out, int a, int b)
{
    int sp = 0, n = 0;
    for (; a < b; a++)
    {
        if (is_ws(B[a]))
            sp = 1;
        else
        {
            if (sp && n)
                out[n++] = ' ';
            sp = 0;
            out[n++] = B[a];
        }
    }
    out[n] = 0;
}
/* a block of header lines up to the blank line; returns the position after it or -(result) */
static int r_headers(int p)
{
    for (;;)
    {
        int a = p, e;
        if (bl - p >= 2 && B[p] == '\r' && B[p + 1] == '\n')
            return p + 2;
        if (p < bl && (B[p] == ' ' || B[p] == '\t'))
            loose = 1; /* a fold with nothing before it */
        for (;;)
        {
            e = crlf(p, bl);
            for (int i = p; i < (e < 0 ? bl : e); i++)
                if (B[i] == 0)
                    loose = 1; /* null characters in the header section: memory only */
            if (e < 0)
                return -AGAIN;
            if (e + 2 >= bl)
            {
                char *c = memchr(B + a, ':', e - a);
                return c ? -AGAIN : -AGAIN_OR_BAD;
            }
            if (B[e + 2] == ' ' || B[e + 2] == '\t')
            {
                p = e + 3;
                continue;
            }
            break;
        }
        char *c = memchr(B + a, ':', e - a);
        if (c == NULL)
            return -BAD;
        if (nRH < 200)
        {
            squeeze(RH[nRH].name, a, c - B);
            squeeze(RH[nRH].value, c - B + 1, e);
            if (!RH[nRH].name[0] || strpbrk(RH[nRH].name, " "))
                loose = 1;
            nRH++;
        }
        p = e + 2;
    }
}
static int r_number(const char *s, int base, long *v) /* 0 ok, BAD, LOOSE */
{
    long n = 0;
    int d = 0, any = 0;
    for (; *s && !is_ws(*s); s++, any = 1)
    {
        if (*s >= '0' && *s <= '9')
            d = *s - '0';
        else if (base == 16 && ((*s >= 'a' && *s <= 'f') || (*s >= 'A' && *s <= 'F')))
            d = (*s | 32) - 'a' + 10;
        else
            return BAD;
        n = n * base + d;
        if (n > INT_MAX)
            return BAD;
    }
    if (!any)
        return BAD;
    for (; *s; s++)
        if (!is_ws(*s))
            return LOOSE;
    *v = n;
    return 0;
}
static int reference(void)
{
    int e, p, f, chunked = 0, ncl = 0, k;
    long cl = 0, v;
    nRH = r_blen = 0;
    loose = 0;
    e = crlf(0, bl);
    for (int i = 0; i < (e < 0 ? bl : e); i++)
        if (B[i] == 0)
            loose = 1;
    if (e < 0)
        return AGAIN;
    p = 0;
    for (f = 0; f < 3; f++)
    {
        int z = p;
        while (z < e && (f == 2 || B[z] != ' '))
            z++;
        if (z == p || (f < 2 && z == e))
            return BAD;
        memcpy(r_start[f], B + p, z - p);
        r_start[f][z - p] = 0;
        p = z + 1;
    }
    p = r_headers(e + 2);
    if (p < 0)
        return -p;
    for (int i = 0; i < nRH; i++)
    {
        if (!strcasecmp(RH[i].name, "Transfer-Encoding"))
        {
            if (!strcasecmp(RH[i].value, "chunked"))
                chunked = 1;
            else
                loose = 1;
        }
        if (!strcasecmp(RH[i].name, "Content-Length"))
        {
            k = r_number(RH[i].value, 10, &v);
            if (k == BAD)
            {
                if (chunked || ncl)
                    loose = 1;
                for (int j = i + 1; j < nRH; j++)
                    if (!strcasecmp(RH[j].name, "Transfer-Encoding"))
                        loose = 1;
                return BAD;
            }
            if (k == LOOSE)
                loose = 1;
            if (ncl++ && v != cl)
                loose = 1;
            cl = v;
        }
    }
    if (!chunked)
    {
        if (cl > bl - p)
            return AGAIN;
        memcpy(r_body, B + p, cl);
        r_blen = cl;
        r_used = p + cl;
        return OK;
    }
    for (;;)
    {
        static char line[MAXM];
        e = crlf(p, bl);
        for (int i = p; i < (e < 0 ? bl : e); i++)
            if (B[i] == 0)
                loose = 1;
        if (e < 0)
            return AGAIN;
        memcpy(line, B + p, e - p);
        line[e - p] = 0;
        char *sc = strchr(line, ';');
        if (sc)
        {
            *sc = 0;
            /* an extension is ignored whatever it holds, unless blanks hide more digits */
        }
        k = r_number(line, 16, &v);
        if (k == BAD)
            return BAD;
        if (k == LOOSE)
            loose = 1;
        p = e + 2;
        if (v == 0)
            break;
        if (bl - p < v + 2)
            return bl - p < v + 1 ? AGAIN : B[p + v] == '\r' ? AGAIN : AGAIN_OR_BAD;
        if (B[p + v] != '\r' || B[p + v + 1] != '\n')
            return BAD;
        memcpy(r_body + r_blen, B + p, v);
        r_blen += v;
        p += v + 2;
    }
    p = r_headers(p);
    if (p < 0)
        return -p;
    r_used = p;
    return OK;
}

/* ---------------------------------------------------------------- generator of messages */
static void pn(const void *s, int n) { if (bl + n < MAXM - 100) { memcpy(B + bl, s, n); bl += n; } }
static void ps(const char *s) { pn(s, strlen(s)); }
static void word(const char *alpha, int lo, int hi)
{
    for (int n = rng_range(&vc_rng, lo, hi); n > 0; n--)
        pn(&alpha[rng_below(&vc_rng, strlen(alpha))], 1);
}
static void blanks(int lo)
{
    for (int n = lo + (rng_chance(&vc_rng, 1, 5) ? rng_range(&vc_rng, 0, 3) : 0); n > 0; n--)
        ps(rng_chance(&vc_rng, 1, 4) ? "\t" : " ");
}
static void cased(const char *s)
{
    int k = rng_below(&vc_rng, 3);
    for (; *s; s++)
    {
        char c = *s;
        if (k == 1 && c >= 'A' && c <= 'Z')
            c |= 32;
        if (k == 2 && c >= 'a' && c <= 'z')
            c &= ~32;
        pn(&c, 1);
    }
}
static int clen_lie; /* 0 true, else a malformed or false length */
static void one_header(void)
{
    if (rng_chance(&vc_rng, 1, 10))
        ps("Host");
    else
        word("abcXYZ-_019", 1, rng_chance(&vc_rng, 1, 20) ? 80 : 8);
    ps(":");
    blanks(1);
    for (int n = rng_range(&vc_rng, 0, 4); n > 0; n--)
    {
        word("abcXYZ019/:;,.=\"()<>@[]{}?", 1, rng_chance(&vc_rng, 1, 20) ? 100 : 6);
        if (rng_chance(&vc_rng, 1, 8))
        {
            ps("\r\n");
            ps(rng_chance(&vc_rng, 1, 2) ? " " : "\t");
        }
        else if (n > 1)
            blanks(1);
    }
    if (rng_chance(&vc_rng, 1, 8))
        blanks(1);
    ps("\r\n");
}
static void body_bytes(int n)
{
    int text = rng_chance(&vc_rng, 1, 2);
    while (n-- > 0)
    {
        char c = text ? "abc\r\n0123;: "[rng_below(&vc_rng, 12)] : (char)rng_u64(&vc_rng);
        pn(&c, 1);
    }
}
static const char *const BADNUM[] = { "-1", "-5", "+5", "0x5", "5a", "", "abc", "99999999999999999999", "4294967296", "4294967301", "18446744073709551615", "18446744073709551621", "-4294967291", "2147483648", " ", "1e3", "%d" };
static const char *const BADHEX[] = { "-1", "-5", "+5", "0x5", "5g", "", "xyz", "ffffffffffffffff", "fffffffffffffffe", "100000000", "100000005", "80000000", "ffffffff", "10000000000000005", "-fffffffb", "7fffffffffffffff", "8000000000000000" };
static int big; /* bodies longer than 64 KiB */
static void message(int wellformed)
{
    int kind = rng_below(&vc_rng, 4), n, lie = !wellformed && rng_chance(&vc_rng, 1, 3);
    char t[64];
    if (rng_chance(&vc_rng, 3, 4))
    {
        ps(((const char *const[]){ "GET", "PUT", "POST", "DELETE", "HEAD", "X" })[rng_below(&vc_rng, 6)]);
        ps(" ");
        word("abc/:?=&%20#.", 1, rng_chance(&vc_rng, 1, 20) ? 300 : 20);
        ps(" HTTP/1.1\r\n");
    }
    else
    {
        ps("HTTP/1.1 404 Not");
        word(" ab", 0, 12);
        ps("\r\n");
    }
    for (n = rng_below(&vc_rng, 4); n > 0; n--)
        one_header();
    if (kind == 0)
    {
        if (rng_chance(&vc_rng, 1, 4))
            ps("Content-Length: 0\r\n");
        ps("\r\n");
    }
    else if (kind < 3)
    {
        int len = rng_chance(&vc_rng, 1, 10) ? rng_range(&vc_rng, 200, 3000) : rng_below(&vc_rng, 40);
        if (big)
            len = rng_range(&vc_rng, 60000, 150000);
        cased("Content-Length");
        ps(":");
        blanks(rng_below(&vc_rng, 2));
        snprintf(t, sizeof(t), rng_chance(&vc_rng, 1, 6) ? "%06d" : "%d", len);
        ps(lie ? BADNUM[rng_below(&vc_rng, 17)] : t);
        ps("\r\n");
        for (n = rng_below(&vc_rng, 2); n > 0; n--)
            one_header();
        ps("\r\n");
        body_bytes(len);
    }
    else
    {
        cased("Transfer-Encoding");
        ps(":");
        blanks(1);
        cased("chunked");
        ps("\r\n");
        if (rng_chance(&vc_rng, 1, 6))
            ps("Content-Length: 3\r\n");
        ps("\r\n");
        int chunks = rng_below(&vc_rng, 5), liar = lie ? rng_below(&vc_rng, chunks + 1) : -1;
        for (n = 0; n < chunks; n++)
        {
            int len = rng_chance(&vc_rng, 1, 10) ? rng_range(&vc_rng, 200, 1500) : rng_range(&vc_rng, 1, 20);
            if (big)
                len = rng_chance(&vc_rng, 1, 3) ? rng_range(&vc_rng, 65000, 70000) : rng_range(&vc_rng, 10000, 30000);
            snprintf(t, sizeof(t), ((const char *const[]){ "%x", "%X", "%04x", "%08X" })[rng_below(&vc_rng, 4)], len);
            ps(n == liar ? BADHEX[rng_below(&vc_rng, 17)] : t);
            if (rng_chance(&vc_rng, 1, 6))
            {
                blanks(0);
                ps(";");
                word("abc= ;019", 0, 12);
            }
            ps("\r\n");
            body_bytes(len);
            ps("\r\n");
        }
        ps(liar == chunks ? BADHEX[rng_below(&vc_rng, 17)] : rng_chance(&vc_rng, 1, 4) ? "000" : "0");
        ps("\r\n");
        for (n = rng_chance(&vc_rng, 1, 3) ? rng_range(&vc_rng, 1, 2) : 0; n > 0; n--)
            one_header();
        ps("\r\n");
    }
}
static void mutate(void)
{
    for (int m = rng_range(&vc_rng, 0, 3); m > 0 && bl > 0; m--)
    {
        int at = rng_below(&vc_rng, bl), n;
        switch (rng_below(&vc_rng, 6))
        {
        case 0: B[at] = rng_u64(&vc_rng); break;
        case 1: B[at] = "\r\n :;0a\t"[rng_below(&vc_rng, 8)]; break;
        case 2: n = rng_range(&vc_rng, 1, 4); if (n > bl - at) n = bl - at; memmove(B + at, B + at + n, bl - at - n); bl -= n; break;
        case 3: if (bl < MAXM - 200) { memmove(B + at + 1, B + at, bl - at); B[at] = "\r\n :;0a\t"[rng_below(&vc_rng, 8)]; bl++; } break;
        case 4: bl = at; break;
        case 5: if (bl < MAXM - 200) { memmove(B + at + 2, B + at, bl - at); memcpy(B + at, "\r\n", 2); bl += 2; } break;
        }
    }
}

static void judge(http_msg_t *m, int want, ssize_t ret)
{
    int same = 1, i = 0;
    http_msg_header_t *h;
    if (loose)
    {
        vc_count("not_judged", 1);
        if (ret > bl)
            vc_viol("overconsumed", "%zd of %d bytes consumed: %s", ret, bl, vc_hex(B, bl));
        return;
    }
    switch (want)
    {
    case AGAIN:
        vc_count("incomplete", 1);
        if (ret != -EAGAIN)
            vc_viol("incomplete-not-recognised", "returned %zd for the incomplete %s", ret, vc_hex(B, bl));
        return;
    case BAD:
        vc_count("malformed", 1);
        if (ret >= 0 || ret == -EAGAIN)
            vc_viol("malformed-accepted", "returned %zd for the malformed %s", ret, vc_hex(B, bl));
        return;
    case AGAIN_OR_BAD:
        vc_count("incomplete", 1);
        if (ret >= 0)
            vc_viol("malformed-accepted", "returned %zd for %s", ret, vc_hex(B, bl));
        return;
    }
    vc_count("complete", 1);
    if (ret != r_used)
    {
        vc_viol("wrong-extent", "returned %zd, the message has %d of %d bytes: %s", ret, r_used, bl, vc_hex(B, bl));
        return;
    }
    for (i = 0; i < 3; i++)
        if (m->start[i] == NULL || strcmp(m->start[i], r_start[i]))
            vc_viol("wrong-start", "start field %d is \"%s\", should be \"%s\"", i, m->start[i] ? m->start[i] : "(null)", r_start[i]);
    for (i = 0, h = http_msg_get_first_header(m); h != NULL; h = h->next, i++)
    {
        if (i >= nRH || strcmp(h->name, RH[i].name) || strcmp(h->value, RH[i].value))
        {
            vc_viol("wrong-header", "header %d is \"%s: %s\", should be \"%s: %s\": %s", i, h->name, h->value, i < nRH ? RH[i].name : "(none)", i < nRH ? RH[i].value : "", vc_hex(B, bl));
            same = 0;
            break;
        }
        vc_count("headers", 1);
    }
    if (same && i != nRH)
        vc_viol("lost-header", "%d headers, should be %d: %s", i, nRH, vc_hex(B, bl));
    if ((int)http_msg_get_body_len(m) != r_blen || (r_blen && (m->body == NULL || memcmp(m->body, r_body, r_blen))))
        vc_viol("wrong-body", "body of %zu bytes, should be %d: %s", http_msg_get_body_len(m), r_blen, vc_hex(B, bl));
    if (m->body != NULL && m->body[m->body_len] != 0)
        vc_viol("unterminated-body", "body of %zu bytes", m->body_len);
    vc_count("body_bytes", r_blen);
    if (bl > r_used)
        vc_count("bytes_left", bl - r_used);
}
static http_msg_t M;
static void parse_now(void)
{
    char *t;
    int want = reference();
    vh_pause();
    t = malloc(bl ? bl : 1); /* exactly as long as the text: a read past it is seen */
    memcpy(t, B, bl);
    if (bl == 0)
        *t = 'x';
    char *c = malloc(bl ? bl : 1);
    memcpy(c, B, bl);
    vh_resume();
    ssize_t ret = http_msg_parse(&M, t, bl);
    vh_pause();
    if (memcmp(c, t, bl))
        vc_viol("input-modified", "the input was changed");
    free(t);
    free(c);
    judge(&M, want, ret);
    vc_distinct(vc_hash(B, bl, want));
    vc_count("parses", 1);
}
static void init(void)
{
    if (RH == NULL)
        RH = malloc(sizeof(*RH) * 201);
    vh_forget();
    vh_begin(0);
    http_msg_create(&M);
    vh_pause();
    bl = 0;
}
static void fini(void)
{
    vh_resume();
    http_msg_destroy(&M);
    vh_pause();
    if (vh_live())
        vc_viol("leak", "%ld blocks left: %s", vh_live(), vc_hex(B, bl));
}
/* a well-formed message arrives piece by piece, followed by the next one */
static void m_pieces(void)
{
    static char F[MAXM];
    int n, at = 0, step;
    init();
    big = rng_chance(&vc_rng, 1, 3000);
    message(1);
    vc_count("long_messages", big);
    big = 0;
    n = bl;
    if (rng_chance(&vc_rng, 1, 2))
        message(1);
    memcpy(F, B, bl);
    int full = bl;
    step = n < 300 && rng_chance(&vc_rng, 1, 3) ? 1 : 0;
    while (at < n && !vc_viol_in_case)
    {
        memcpy(B, F, full);
        bl = at;
        parse_now();
        vc_count("prefixes", 1);
        at += step ? 1 : rng_range(&vc_rng, 1, rng_chance(&vc_rng, 1, 2) ? n : 8);
    }
    memcpy(B, F, full);
    bl = rng_chance(&vc_rng, 1, 2) ? n : full;
    int was = vc_get("complete");
    parse_now();
    if (!loose && (int)vc_get("complete") == was)
        vc_viol("harness", "generated message not complete: %s", vc_hex(B, bl));
    if (vc_want_sample())
        vc_sample("%d bytes, body %d: %s", n, r_blen, vc_hex(B, bl > 100 ? 100 : bl));
    fini();
}
static void m_hostile(void)
{
    init();
    for (int r = rng_range(&vc_rng, 1, 3); r > 0 && !vc_viol_in_case; r--)
    {
        bl = 0;
        if (rng_chance(&vc_rng, 1, 12))
            for (int n = rng_below(&vc_rng, 60); n > 0; n--)
            {
                char c = rng_chance(&vc_rng, 1, 8) ? (char)rng_u64(&vc_rng) : "G /\r\n:0a ;"[rng_below(&vc_rng, 10)];
                pn(&c, 1);
            }
        else
        {
            message(rng_chance(&vc_rng, 1, 4));
            if (rng_chance(&vc_rng, 1, 4))
                body_bytes(rng_below(&vc_rng, 30));
            mutate();
        }
        parse_now();
    }
    fini();
}
static void m_oom(void)
{
    long total = 1;
    init();
    message(1);
    int want = reference();
    if (loose || want != OK)
        return;
    for (long k = 0; k <= total && k < 80; k++)
    {
        vh_forget();
        vh_begin(k);
        ssize_t ret = http_msg_parse(&M, B, bl);
        vh_pause();
        vh_fail_at = 0;
        if (k == 0)
            total = vh_num;
        if (vh_failed)
        {
            vc_count("allocation_failures", 1);
            if (ret != -ENOMEM)
                vc_viol("oom-unreported", "allocation %ld failed and %zd was returned: %s", k, ret, vc_hex(B, bl));
        }
        vh_resume();
        if (rng_chance(&vc_rng, 1, 2))
            http_msg_reset(&M);
        else
            http_msg_destroy(&M);
        vh_pause();
        if (vh_live())
        {
            vc_viol("leak", "%ld blocks left when allocation %ld failed: %s", vh_live(), k, vc_hex(B, bl));
            break;
        }
    }
    vc_distinct(vc_hash(B, bl, 5));
    vh_forget();
}

/* ---------------------------------------------------------------- generation */
static char W[3][400], HN[20][200], HV[20][300], BODY[160000];
static int nH, nB;
static void rword(char *out, const char *alpha, int lo, int hi)
{
    int n = rng_range(&vc_rng, lo, hi);
    for (int i = 0; i < n; i++)
        out[i] = alpha[rng_below(&vc_rng, strlen(alpha))];
    out[n] = 0;
}
static void rvalue(char *out)
{
    char t[120];
    out[0] = 0;
    for (int n = rng_below(&vc_rng, 4); n > 0; n--)
    {
        rword(t, "abcXYZ019/:;,.=\"()<>@[]{}?%", 1, rng_chance(&vc_rng, 1, 10) ? 60 : 6);
        if (out[0])
            strcat(out, " ");
        strcat(out, t);
    }
}
/* run a generator with a buffer of len bytes that ends where its allocation ends */
static size_t (*G)(char *buf, size_t len);
static size_t g_msg(char *b, size_t n) { return http_msg_generate(&M, b, n); }
static const char *g_in;
static size_t g_in_len;
static size_t g_chunk(char *b, size_t n) { return http_msg_generate_chunk(b, n, g_in, g_in_len); }
static size_t g_last(char *b, size_t n) { return http_msg_generate_last_chunk(b, n); }
static size_t g_trailer(char *b, size_t n) { return http_msg_generate_trailer(b, n, HN[0], HV[0]); }
static size_t g_blank(char *b, size_t n) { return http_msg_generate_blank_line(b, n); }
static void bounded(size_t (*g)(char *, size_t), const char *full, size_t n, const char *what)
{
    for (int i = 0; i < 5; i++)
    {
        size_t len = i == 0 ? n : i == 1 ? n + 1 : i == 2 ? rng_below(&vc_rng, n + 2) : i == 3 ? rng_below(&vc_rng, 3) : n > 4 ? n - rng_below(&vc_rng, 4) : n, r;
        char *b = malloc(len ? len : 1);
        memset(b, 'Z', len ? len : 1);
        r = g(b, len);
        if (len == 0)
        {
            if (b[0] != 'Z')
                vc_viol("beyond-buffer", "%s: an empty buffer was written to", what);
            vc_count("empty_buffers", 1);
        }
        else
        {
            size_t k = n < len - 1 ? n : len - 1;
            if (r != n)
                vc_viol("wrong-length", "%s: buffer of %zu: %zu reported, %zu needed", what, len, r, n);
            if (memcmp(b, full, k) || b[k] != 0)
                vc_viol("wrong-prefix", "%s: buffer of %zu of %zu holds %s instead of %s", what, len, n, vc_hex(b, len), vc_hex(full, k));
            vc_count(len > n ? "fits" : "truncated", 1);
        }
        free(b);
    }
}
static size_t whole(size_t (*g)(char *, size_t), char *out, size_t cap, const char *what)
{
    memset(out, 'Z', cap);
    size_t n = g(out, cap);
    if (n >= cap)
    {
        vc_viol("wrong-length", "%s: %zu reported for a buffer of %zu", what, n, cap);
        return 0;
    }
    bounded(g, out, n, what);
    return n;
}
static void m_gen(void)
{
    static char out[MAXM], acc[MAXM];
    size_t n, an = 0;
    http_msg_header_t *h;
    int chunked = rng_chance(&vc_rng, 1, 3), i, ret = 0, rounds = rng_chance(&vc_rng, 1, 4) ? 2 : 1, ntr = 0;
    init();
    int lng = rng_chance(&vc_rng, 1, 4000);
    vc_count("long_messages", lng);
    while (rounds-- > 0)
    {
        nH = 0;
        for (i = 0; i < 3; i++)
            rword(W[i], i == 2 ? "abc /1.0" : "abc/1.0:?", 1, rng_chance(&vc_rng, 1, 20) ? 200 : 10);
        W[2][0] = 'H';
        vh_resume();
        if (rng_chance(&vc_rng, 1, 8)) /* set again: the last one counts */
            http_msg_set_start(&M, "a", "b", "c");
        ret |= http_msg_set_start(&M, W[0], W[1], W[2]);
        vh_pause();
        for (i = rng_below(&vc_rng, 5); i > 0; i--)
        {
            rword(HN[nH], "abcXYZ-019", 1, 10);
            rvalue(HV[nH]);
            nH++;
        }
        nB = rng_chance(&vc_rng, 1, 5) ? 0 : rng_chance(&vc_rng, 1, 6) ? rng_range(&vc_rng, 200, 4000) : rng_below(&vc_rng, 50);
        if (lng)
            nB = rng_range(&vc_rng, 64000, 150000);
        for (i = 0; i < nB; i++)
            BODY[i] = rng_chance(&vc_rng, 1, 3) ? "\r\n0a:\0"[rng_below(&vc_rng, 6)] : (char)rng_u64(&vc_rng);
        if (chunked)
        {
            strcpy(HN[nH], "Transfer-Encoding");
            strcpy(HV[nH++], "chunked");
        }
        else if (nB || rng_chance(&vc_rng, 1, 2))
        {
            strcpy(HN[nH], "Content-Length");
            sprintf(HV[nH++], "%d", nB);
        }
        vh_resume();
        for (i = 0; i < nH; i++)
            ret |= http_msg_set_header(&M, HN[i], HV[i]);
        if (!chunked && (nB || rng_chance(&vc_rng, 1, 2)))
        {
            if (rng_chance(&vc_rng, 1, 8))
                http_msg_set_body(&M, "old body", 8);
            ret |= http_msg_set_body(&M, BODY, nB);
        }
        if (rounds > 0)
            http_msg_reset(&M);
        vh_pause();
    }
    if (ret)
        vc_viol("set-failed", "a setter returned %d", ret);
    n = whole(g_msg, out, lng ? 200000 : 16000, "message");
    memcpy(acc, out, n);
    an = n;
    vc_count("generated", 1);
    if (chunked)
    {
        int at = 0;
        while (at < nB)
        {
            g_in_len = rng_range(&vc_rng, 1, nB - at);
            g_in = BODY + at;
            n = whole(g_chunk, out, lng ? 200000 : 9000, "chunk");
            memcpy(acc + an, out, n);
            an += n;
            at += g_in_len;
            vc_count("chunks", 1);
        }
        n = whole(g_last, out, 100, "last chunk");
        memcpy(acc + an, out, n);
        an += n;
        if (rng_chance(&vc_rng, 1, 3))
        {
            char on[200], ov[300];
            strcpy(on, HN[0]);
            strcpy(ov, HV[0]);
            rword(HN[0], "abcXYZ-019", 1, 10);
            rvalue(HV[0]);
            n = whole(g_trailer, out, 600, "trailer");
            memcpy(acc + an, out, n);
            an += n;
            strcpy(HN[nH], HN[0]);
            strcpy(HV[nH++], HV[0]);
            strcpy(HN[0], on);
            strcpy(HV[0], ov);
            ntr = 1;
            vc_count("trailers", 1);
        }
        n = whole(g_blank, out, 100, "blank line");
        memcpy(acc + an, out, n);
        an += n;
    }
    /* judged by the reference reader, then parsed back by the code itself */
    if (!vc_viol_in_case && an < MAXM - 10)
    {
        memcpy(B, acc, an);
        bl = an;
        int want = reference();
        if (want != OK || r_used != (int)an || loose)
            vc_viol("not-http", "generated %s", vc_hex(acc, an));
        else
        {
            for (i = 0; i < 3; i++)
                if (strcmp(r_start[i], W[i]))
                    vc_viol("start-lost", "start field %d \"%s\" became \"%s\"", i, W[i], r_start[i]);
            if (nRH != nH)
                vc_viol("header-lost", "%d headers became %d", nH, nRH);
            else
                for (i = 0; i < nH; i++)
                    if (strcmp(RH[i].name, HN[i]) || strcmp(RH[i].value, HV[i]))
                        vc_viol("header-lost", "header \"%s: %s\" became \"%s: %s\"", HN[i], HV[i], RH[i].name, RH[i].value);
            if (r_blen != nB || memcmp(r_body, BODY, nB))
                vc_viol("body-lost", "a body of %d bytes became %d", nB, r_blen);
            vh_resume();
            http_msg_reset(&M);
            ssize_t ret2 = http_msg_parse(&M, acc, an);
            vh_pause();
            if (ret2 != (ssize_t)an)
                vc_viol("not-parsed-back", "%zd of %zu bytes parsed back: %s", ret2, an, vc_hex(acc, an));
            else
            {
                for (i = 0; i < 3; i++)
                    if (strcmp(M.start[i], W[i]))
                        vc_viol("not-parsed-back", "start field %d", i);
                for (i = 0, h = http_msg_get_first_header(&M); h && i < nH; h = h->next, i++)
                    if (strcmp(h->name, HN[i]) || strcmp(h->value, HV[i]))
                        vc_viol("not-parsed-back", "header %d", i);
                if (h || i != nH || (int)M.body_len != nB || (nB && memcmp(M.body, BODY, nB)))
                    vc_viol("not-parsed-back", "%d headers, body of %zu", i, M.body_len);
            }
            vc_count("parsed_back", 1);
        }
    }
    (void)ntr;
    vc_distinct(vc_hash(acc, an, 21));
    if (vc_want_sample())
        vc_sample("%zu bytes: %s", an, vc_hex(acc, an > 100 ? 100 : an));
    bl = 0;
    fini();
}
/* setters with failing allocations */
static void m_genoom(void)
{
    int op = rng_below(&vc_rng, 3);
    for (long k = 1; k <= 3; k++)
    {
        init();
        vh_begin(0);
        if (rng_chance(&vc_rng, 1, 2))
        {
            http_msg_set_start(&M, "GET", "/", "HTTP/1.1");
            http_msg_set_header(&M, "a", "b");
            http_msg_set_body(&M, "xyz", 3);
        }
        vh_begin(k);
        int ret = op == 0 ? http_msg_set_start(&M, "PUT", "/x", "HTTP/1.0") : op == 1 ? http_msg_set_header(&M, "c", "d") : http_msg_set_body(&M, "uvwxyz", 6);
        vh_fail_at = 0;
        vh_pause();
        if (vh_failed && ret != -ENOMEM)
            vc_viol("oom-unreported", "setter %d, allocation %ld: %d", op, k, ret);
        if (!vh_failed && ret != 0)
            vc_viol("set-failed", "setter %d: %d", op, ret);
        vc_count("allocation_failures", vh_failed);
        fini();
    }
    vc_distinct(vc_case);
}
static const vc_mode_t MODES[] = {
    { "pieces", m_pieces, "every prefix asks for more, the whole is taken exactly, what follows is left" },
    { "hostile", m_hostile, "malformed, mutated and random input against the reference reading" },
    { "oom", m_oom, "every allocation of a parse made to fail" },
    { "gen", m_gen, "generated messages, chunks and trailers: exact, bounded, read back" },
    { "genoom", m_genoom, "every allocation of the setters made to fail" },
    { NULL, NULL, NULL } };
int main(int argc, char **argv) { return vc_main(argc, argv, MODES); }
