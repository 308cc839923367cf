/* P24: URI parsing, generation, copying and setting against the generic syntax of RFC 3986 (appendix B). */
#include <errno.h>
#include "vc.h"
#include "vheap.h"
#include "uri.h"

#include "uriref.h"

static char **field(uri_t *u, int k)
{
    switch (k)
    {
    case SCHEME: return &u->scheme;
    case USER: return &u->userinfo;
    case HOST: return &u->host;
    case PORT: return &u->port;
    case PATH: return &u->path;
    case QUERY: return &u->query;
    }
    return &u->fragment;
}
static void compare(uri_t *u, const char *what)
{
    for (int k = 0; k < NC; k++)
    {
        char *g = *field(u, k);
        if (strcmp(g ? g : "", has[k] ? R[k] : ""))
            vc_viol("wrong-component", "%s: %s is \"%s\", should be \"%s\": %s", what, NAME[k], g ? g : "(none)", has[k] ? R[k] : "(none)", S);
        else if ((k == QUERY || k == FRAG) && (g != NULL) != has[k])
            vc_viol("wrong-component", "%s: %s is %s: %s", what, NAME[k], g ? "present" : "missing", S);
        vc_count("components", 1);
    }
}
static void same(uri_t *a, uri_t *b, const char *what)
{
    for (int k = 0; k < NC; k++)
    {
        char *g = *field(a, k), *h = *field(b, k);
        if (strcmp(g ? g : "", h ? h : "") || ((k == QUERY || k == FRAG) && (g != NULL) != (h != NULL)))
            vc_viol("not-preserved", "%s: %s \"%s\" became \"%s\": %s", what, NAME[k], g ? g : "(none)", h ? h : "(none)", S);
        if (g != NULL && g == h)
            vc_viol("shared", "%s: %s is shared", what, NAME[k]);
    }
}
/* can the text the generic syntax gives for these components be told apart? */
static int representable(uri_t *u)
{
    int auth = (u->userinfo != NULL) || (u->host != NULL && u->host[0]) || u->port != NULL;
    const char *p = u->path ? u->path : "";
    if (u->scheme && !u->scheme[0])
        return 0;
    if (u->host && !u->host[0] && !auth)
        auth = 1;
    if (auth)
        return p[0] == 0 || p[0] == '/';
    if (p[0] == '/' && p[1] == '/')
        return 0;
    if (u->scheme == NULL && p[strcspn(p, ":/")] == ':')
        return 0;
    return 1;
}
static void generate(uri_t *u)
{
    static char full[16384];
    size_t n = uri_generate(u, full, sizeof(full)), len, r;
    if (n >= sizeof(full) || strlen(full) != n)
    {
        vc_viol("wrong-length", "generated %zu characters, %zu reported: %s", strlen(full), n, S);
        return;
    }
    for (size_t i = 0; i < n; i++)
        if ((unsigned char)full[i] <= 32 || (unsigned char)full[i] >= 127 || strchr("\"<>\\^`{|}", full[i]))
        {
            vc_viol("not-a-uri", "generated \"%s\" from %s", full, S);
            break;
        }
    vc_count("generated", 1);
    for (int i = 0; i < 4; i++)
    {
        len = i == 0 ? n : i == 1 ? n + 1 : i == 2 ? rng_below(&vc_rng, n + 2) : rng_below(&vc_rng, 3);
        char *b = malloc(len ? len : 1);
        memset(b, 'Z', len ? len : 1);
        r = uri_generate(u, b, len);
        if (r != n)
            vc_viol("wrong-length", "buffer of %zu: %zu reported, %zu needed: %s", len, r, n, S);
        if (len == 0 && b[0] != 'Z')
            vc_viol("beyond-buffer", "an empty buffer was written to");
        if (len > 0 && memchr(b, 0, len) == NULL)
            vc_viol("unterminated", "buffer of %zu for %zu characters", len, n);
        else if (len > 0 && (strncmp(b, full, strlen(b)) || (len > n && strcmp(b, full))))
            vc_viol("wrong-prefix", "buffer of %zu holds \"%s\" of \"%s\"", len, b, full);
        vc_count(len > n ? "fits" : "truncated", 1);
        free(b);
    }
    if (representable(u))
    {
        uri_t v;
        uri_create(&v);
        int ret = uri_parse(&v, full);
        if (ret != 0)
            vc_viol("not-parsed-back", "\"%s\" generated from %s is refused (%d)", full, S, ret);
        else
            same(u, &v, "generate and parse");
        uri_destroy(&v);
        vc_count("parsed_back", 1);
    }
}
static void copy(uri_t *u)
{
    uri_t v;
    uri_create(&v);
    if (rng_chance(&vc_rng, 1, 2))
        uri_parse(&v, "coap://old@oldhost:1/oldpath?oldquery#oldfrag");
    int ret = uri_copy(&v, u);
    if (ret != 0)
        vc_viol("copy-failed", "uri_copy returned %d: %s", ret, S);
    else
        same(u, &v, "copy");
    uri_destroy(&v);
    vc_count("copies", 1);
}

/* ---------------------------------------------------------------- generator */
static int sl;
static void pc(char c) { if (sl < 2000) S[sl++] = c; S[sl] = 0; }
static void ps(const char *s) { while (*s) pc(*s++); }
static int wild;
static void piece(const char *alpha, int max)
{
    int n = rng_chance(&vc_rng, 1, 30) ? rng_range(&vc_rng, 100, 500) : rng_below(&vc_rng, max + 1);
    while (n-- > 0)
    {
        int k = rng_below(&vc_rng, 24);
        if (k < 3)
        {
            int c = rng_chance(&vc_rng, 1, wild ? 20 : 4000) ? 0 : rng_chance(&vc_rng, 1, 2) ? "/?#:@[]%&= \"<"[rng_below(&vc_rng, 13)] : rng_range(&vc_rng, 1, 255);
            char b[8];
            sprintf(b, rng_chance(&vc_rng, 1, 2) ? "%%%02X" : "%%%02x", c & 255);
            ps(b);
        }
        else if (k == 3 && wild)
            pc(rng_chance(&vc_rng, 1, 2) ? "/?#:@[]%&= \"<"[rng_below(&vc_rng, 13)] : rng_range(&vc_rng, 1, 255));
        else
            pc(alpha[rng_below(&vc_rng, strlen(alpha))]);
    }
}
static void gen(void)
{
    sl = 0;
    S[0] = 0;
    wild = rng_chance(&vc_rng, 1, 4);
    int auth = rng_chance(&vc_rng, 3, 4);
    if (rng_chance(&vc_rng, 3, 4))
    {
        if (rng_chance(&vc_rng, 1, 2))
            ps(rng_chance(&vc_rng, 1, 2) ? "coap" : "coaps");
        else
        {
            pc('h');
            piece("abcXYZ019+-.", 6);
        }
        pc(':');
    }
    if (auth)
    {
        ps("//");
        if (rng_chance(&vc_rng, 1, 4))
        {
            piece("abcXYZ019-._~!$&'()*+,;=:", 8);
            pc('@');
        }
        if (rng_chance(&vc_rng, 1, 4))
        {
            pc('[');
            piece("0123456789abcdef:.", 20);
            if (!wild || rng_chance(&vc_rng, 7, 8))
                pc(']');
        }
        else
            piece("abcXYZ019-._~!$&'()*+,;=", 12);
        if (rng_chance(&vc_rng, 1, 3))
        {
            pc(':');
            piece("0123456789", 5);
        }
    }
    if (rng_chance(&vc_rng, 3, 4))
    {
        for (int n = rng_range(&vc_rng, 0, 4); n > 0; n--)
        {
            pc('/');
            piece("abcXYZ019-._~!$&'()*+,;=:@", 8);
        }
    }
    else if (!auth)
        piece("abcXYZ019-._~!$&'()*+,;=@", 8);
    if (rng_chance(&vc_rng, 1, 2))
    {
        pc('?');
        piece("abcXYZ019-._~!$&'()*+,;=:@/?", 14);
    }
    if (rng_chance(&vc_rng, 1, 3))
    {
        pc('#');
        piece("abcXYZ019-._~!$&'()*+,;=:@/?", 8);
    }
    if (wild && sl > 0)
        for (int m = rng_below(&vc_rng, 3); m > 0; m--)
            S[rng_below(&vc_rng, sl)] = rng_chance(&vc_rng, 1, 2) ? "/?#:@[]%&=ab "[rng_below(&vc_rng, 13)] : rng_range(&vc_rng, 1, 255);
    if (wild && rng_chance(&vc_rng, 1, 4))
        S[sl = rng_below(&vc_rng, sl + 1)] = 0;
}
static char *exact(void)
{
    char *p = malloc(strlen(S) + 1);
    strcpy(p, S);
    return p;
}
static void m_parse(void)
{
    uri_t u;
    int rounds = rng_chance(&vc_rng, 1, 4) ? 2 : 1;
    vh_forget();
    vh_begin(0);
    uri_create(&u);
    for (int r = 0; r < rounds; r++)
    {
        vh_pause();
        gen();
        char *t = exact();
        vh_resume();
        int ret = uri_parse(&u, t);
        vh_pause();
        free(t);
        vh_resume();
        reference(S);
        if (loose)
            vc_count("not_judged", 1);
        else if ((ret != 0) != (bad != 0))
            vc_viol("accepts-wrongly", "%s URI, uri_parse returned %d: %s", bad ? "malformed" : "well-formed", ret, S);
        else if (!bad)
            compare(&u, "parse");
        vc_count(bad ? "malformed" : "well_formed", 1);
        if (ret == 0)
        {
            generate(&u);
            copy(&u);
        }
        vc_distinct(vc_hash(S, strlen(S), 3));
    }
    if (vc_want_sample())
        vc_sample("%s%s", bad ? "refused: " : "", vc_hex(S, strlen(S) > 80 ? 80 : strlen(S)));
    uri_destroy(&u);
    vh_pause();
    if (vh_live())
        vc_viol("leak", "%ld blocks left: %s", vh_live(), S);
}
static int set(uri_t *u, int k, const char *s)
{
    switch (k)
    {
    case SCHEME: return uri_set_scheme(u, s);
    case USER: return uri_set_userinfo(u, s);
    case HOST: return uri_set_host(u, s);
    case PORT: return uri_set_port(u, s);
    case PATH: return uri_set_path(u, s);
    case QUERY: return uri_set_query(u, s);
    }
    return uri_set_fragment(u, s);
}
static void m_set(void)
{
    static char W[NC][4096];
    int on[NC] = { 0 };
    uri_t u;
    vh_forget();
    vh_begin(0);
    uri_create(&u);
    for (int n = rng_range(&vc_rng, 1, 10); n > 0; n--)
    {
        int k = rng_below(&vc_rng, NC), ret;
        sl = 0;
        S[0] = 0;
        wild = rng_chance(&vc_rng, 1, 4);
        if (k == PATH && rng_chance(&vc_rng, 1, 2))
            pc('/');
        piece(k == PORT ? "0123456789" : k == HOST && rng_chance(&vc_rng, 1, 3) ? "0123456789abcdef:" : k == PATH ? "abcXYZ019-._~/:@" : "abcXYZ019-._~:/&=", 12);
        vh_pause();
        char *t = exact();
        vh_resume();
        ret = set(&u, k, t);
        vh_pause();
        free(t);
        vh_resume();
        loose = bad = 0;
        if (dec(R[k], S, S + strlen(S)))
            bad = 1;
        if (loose)
        {
            on[k] = 2;
            vc_count("not_judged", 1);
            continue;
        }
        if ((ret != 0) != bad)
            vc_viol("accepts-wrongly", "%s %s, set returned %d: %s", bad ? "malformed" : "well-formed", NAME[k], ret, S);
        vc_count(bad ? "malformed" : "well_formed", 1);
        on[k] = bad ? 2 : 1;
        snprintf(W[k], sizeof(W[k]), "%s%s", k == PATH && S[0] != '/' ? "/" : "", R[k]);
        for (int j = 0; j < NC; j++)
        {
            char *g = *field(&u, j);
            if (on[j] == 1 && (g == NULL || strcmp(g, W[j])))
                vc_viol("wrong-component", "after setting %s to %s, %s is \"%s\", should be \"%s\"", NAME[k], S, NAME[j], g ? g : "(none)", W[j]);
            if (on[j] == 0 && g != NULL)
                vc_viol("wrong-component", "after setting %s, %s appeared", NAME[k], NAME[j]);
            vc_count("components", 1);
        }
        vc_distinct(vc_hash(S, strlen(S), k));
    }
    generate(&u);
    copy(&u);
    uri_destroy(&u);
    vh_pause();
    if (vh_live())
        vc_viol("leak", "%ld blocks left", vh_live());
}
/* every allocation fails once */
static void m_oom(void)
{
    int what = rng_below(&vc_rng, 3), k = rng_below(&vc_rng, NC);
    long total = 1;
    gen();
    reference(S);
    if (loose || bad)
        return;
    for (long i = 0; i <= total; i++)
    {
        uri_t u, v;
        vh_forget();
        vh_begin(0);
        uri_create(&u);
        uri_create(&v);
        uri_parse(&u, what == 0 ? "coap://a@b:1/c?d#e" : S);
        if (rng_chance(&vc_rng, 1, 2))
            uri_parse(&v, "coap://a@b:1/c?d#e");
        vh_begin(i);
        int ret = what == 0 ? uri_parse(&u, S) : what == 1 ? uri_copy(&v, &u) : set(&u, k, "%41bc");
        vh_pause();
        vh_fail_at = 0;
        if (i == 0)
            total = vh_num;
        if (vh_failed)
        {
            vc_count("allocation_failures", 1);
            if (ret == 0)
                vc_viol("oom-unreported", "allocation %ld failed unnoticed (operation %d): %s", i, what, S);
        }
        else if (ret != 0)
            vc_viol("accepts-wrongly", "operation %d returned %d: %s", what, ret, S);
        vh_resume();
        uri_destroy(&u);
        uri_destroy(&v);
        vh_pause();
        if (vh_live())
            vc_viol("leak", "%ld blocks left when allocation %ld failed: %s", vh_live(), i, S);
    }
    vc_distinct(vc_hash(S, strlen(S), what + 90));
}
static const vc_mode_t MODES[] = {
    { "parse", m_parse, "uri_parse against RFC 3986 appendix B; generated text parses back; copies are equal" },
    { "set", m_set, "sequences of component setters, then generation and copying" },
    { "oom", m_oom, "every allocation of parse, copy and set made to fail" },
    { NULL, NULL, NULL } };
int main(int argc, char **argv) { return vc_main(argc, argv, MODES); }
